//! generated by gen_eqm.py: schemas that differ in exactly one place
#![allow(dead_code)]
use super::*;
use postcard_schema::schema::{DataModelType as D, DataModelVariant as W, NamedValue, NamedVariant};

pub mod f_option {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "Lb", ty: &D::UnitStruct }) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "Lab", ty: &D::UnitStruct }) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "Ka", ty: &D::UnitStruct }) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "La", ty: &D::Struct(&[]) }) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "La", ty: &D::Enum(&[]) }) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "Mid", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) }) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "Mid", ty: &D::Option(&NamedType { name: "Lb", ty: &D::UnitStruct }) }) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "Mid", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "Mid", ty: &D::TupleStruct(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }]) }) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Lb", ty: &D::UnitStruct }) }]) }) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_option: All;
    }
    merged! {
        m_eq_option: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_newtype {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "Lb", ty: &D::UnitStruct }) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "Lab", ty: &D::UnitStruct }) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "Ka", ty: &D::UnitStruct }) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "La", ty: &D::Struct(&[]) }) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "La", ty: &D::Enum(&[]) }) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "Mid", ty: &D::NewtypeStruct(&NamedType { name: "La", ty: &D::UnitStruct }) }) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "Mid", ty: &D::NewtypeStruct(&NamedType { name: "Lb", ty: &D::UnitStruct }) }) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "Mid", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "Mid", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) }) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) }) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::NewtypeStruct(&NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) }) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_newtype: All;
    }
    merged! {
        m_eq_newtype: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_seq {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "Lb", ty: &D::UnitStruct }) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "Lab", ty: &D::UnitStruct }) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "Ka", ty: &D::UnitStruct }) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "La", ty: &D::Struct(&[]) }) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "La", ty: &D::Enum(&[]) }) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "Mid", ty: &D::Seq(&NamedType { name: "La", ty: &D::UnitStruct }) }) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "Mid", ty: &D::Seq(&NamedType { name: "Lb", ty: &D::UnitStruct }) }) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "Mid", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "Mid", ty: &D::Map { key: &NamedType { name: "Lb", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Seq(&NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_seq: All;
    }
    merged! {
        m_eq_seq: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_tuple0 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "Lab", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "Ka", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::Struct(&[]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::Enum(&[]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "Mid", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "Mid", ty: &D::Tuple(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "Mid", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "Mid", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Lb", ty: &D::UnitStruct } } }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_tuple0: All;
    }
    merged! {
        m_eq_tuple0: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_tuple1 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lab", ty: &D::UnitStruct }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Ka", ty: &D::UnitStruct }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::Struct(&[]) }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::Enum(&[]) }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }]) }]) }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_tuple1: All;
    }
    merged! {
        m_eq_tuple1: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_ts0 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "Lab", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "Ka", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::Struct(&[]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::Enum(&[]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "Mid", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "Mid", ty: &D::TupleStruct(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "Mid", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "Mid", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "Mid", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "Mid", ty: &D::Option(&NamedType { name: "Lb", ty: &D::UnitStruct }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_ts0: All;
    }
    merged! {
        m_eq_ts0: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_ts1 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lab", ty: &D::UnitStruct }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Ka", ty: &D::UnitStruct }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::Struct(&[]) }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::Enum(&[]) }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }]) }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Lb", ty: &D::UnitStruct }) }]) }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::NewtypeStruct(&NamedType { name: "La", ty: &D::UnitStruct }) }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::NewtypeStruct(&NamedType { name: "Lb", ty: &D::UnitStruct }) }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_ts1: All;
    }
    merged! {
        m_eq_ts1: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_mapk {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "Lb", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "Lab", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "Ka", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::Struct(&[]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::Enum(&[]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "Mid", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "Mid", ty: &D::Map { key: &NamedType { name: "Lb", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "Mid", ty: &D::Seq(&NamedType { name: "La", ty: &D::UnitStruct }) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "Mid", ty: &D::Seq(&NamedType { name: "Lb", ty: &D::UnitStruct }) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_mapk: All;
    }
    merged! {
        m_eq_mapk: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_mapv {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Lb", ty: &D::UnitStruct } } };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Lab", ty: &D::UnitStruct } } };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } } };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } } };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Ka", ty: &D::UnitStruct } } };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::Struct(&[]) } } };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::Enum(&[]) } } };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Mid", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } } } };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Mid", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Lb", ty: &D::UnitStruct } } } } };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) } } };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) } } };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Mid", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Mid", ty: &D::Tuple(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_mapv: All;
    }
    merged! {
        m_eq_mapv: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_st0 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Lab", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Ka", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::Struct(&[]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::Enum(&[]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Mid", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Mid", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Mid", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Mid", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_st0: All;
    }
    merged! {
        m_eq_st0: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_st1 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Lab", ty: &D::UnitStruct } }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Ka", ty: &D::UnitStruct } }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::Struct(&[]) } }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::Enum(&[]) } }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Mid", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) } }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Mid", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }]) } }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) } }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }]) }]) } }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Mid", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) } }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Mid", ty: &D::TupleStruct(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) } }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_st1: All;
    }
    merged! {
        m_eq_st1: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_env {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Lb", ty: &D::UnitStruct }) }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Lab", ty: &D::UnitStruct }) }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Ka", ty: &D::UnitStruct }) }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::Struct(&[]) }) }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::Enum(&[]) }) }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }]) }) }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Lb", ty: &D::UnitStruct }) }]) }) }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Mid", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) }) }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Mid", ty: &D::Option(&NamedType { name: "Lb", ty: &D::UnitStruct }) }) }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Mid", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }) }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Mid", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) }) }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_env: All;
    }
    merged! {
        m_eq_env: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_ent0 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Lab", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Ka", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::Struct(&[]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::Enum(&[]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Mid", ty: &D::NewtypeStruct(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Mid", ty: &D::NewtypeStruct(&NamedType { name: "Lb", ty: &D::UnitStruct }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Mid", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Mid", ty: &D::Map { key: &NamedType { name: "Lb", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_ent0: All;
    }
    merged! {
        m_eq_ent0: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_ent1 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lab", ty: &D::UnitStruct }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Ka", ty: &D::UnitStruct }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::Struct(&[]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::Enum(&[]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Seq(&NamedType { name: "La", ty: &D::UnitStruct }) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Seq(&NamedType { name: "Lb", ty: &D::UnitStruct }) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Mid", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Lb", ty: &D::UnitStruct } } }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_ent1: All;
    }
    merged! {
        m_eq_ent1: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_ens0 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Lab", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Ka", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::Struct(&[]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::Enum(&[]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Mid", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Mid", ty: &D::Tuple(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Mid", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Mid", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_ens0: All;
    }
    merged! {
        m_eq_ens0: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_ens1 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Lab", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }]) }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Ka", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::Struct(&[]) } }]) }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::Enum(&[]) } }]) }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) } }]) }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Mid", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }]) }]) } }]) }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Mid", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) } }]) }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Mid", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) } }]) }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Mid", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) } }]) }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Mid", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Lb", ty: &D::UnitStruct } }]) } }]) }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA]) };
    }
    uniq! {
        u_eq_ens1: All;
    }
    merged! {
        m_eq_ens1: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13;
    }
}
pub mod f_lists {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[]) }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R14;
    impl Schema for R14 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R15;
    impl Schema for R15 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "Lab", ty: &D::UnitStruct }]) };
    }
    pub struct R16;
    impl Schema for R16 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "Lab", ty: &D::UnitStruct }]) };
    }
    pub struct R17;
    impl Schema for R17 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "Lab", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R18;
    impl Schema for R18 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) };
    }
    pub struct R19;
    impl Schema for R19 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) };
    }
    pub struct R20;
    impl Schema for R20 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) }]) };
    }
    pub struct R21;
    impl Schema for R21 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R22;
    impl Schema for R22 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R23;
    impl Schema for R23 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R24;
    impl Schema for R24 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R25;
    impl Schema for R25 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R26;
    impl Schema for R26 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R27;
    impl Schema for R27 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) };
    }
    pub struct R28;
    impl Schema for R28 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) };
    }
    pub struct R29;
    impl Schema for R29 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R30;
    impl Schema for R30 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R31;
    impl Schema for R31 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R32;
    impl Schema for R32 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R33;
    impl Schema for R33 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) };
    }
    pub struct R34;
    impl Schema for R34 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) };
    }
    pub struct R35;
    impl Schema for R35 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Lb", ty: &D::UnitStruct }]) }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA, R14::SCHEMA, R15::SCHEMA, R16::SCHEMA, R17::SCHEMA, R18::SCHEMA, R19::SCHEMA, R20::SCHEMA, R21::SCHEMA, R22::SCHEMA, R23::SCHEMA, R24::SCHEMA, R25::SCHEMA, R26::SCHEMA, R27::SCHEMA, R28::SCHEMA, R29::SCHEMA, R30::SCHEMA, R31::SCHEMA, R32::SCHEMA, R33::SCHEMA, R34::SCHEMA, R35::SCHEMA]) };
    }
    uniq! {
        u_eq_lists: All;
    }
    merged! {
        m_eq_lists: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13, R14, R15, R16, R17, R18, R19, R20, R21, R22, R23, R24, R25, R26, R27, R28, R29, R30, R31, R32, R33, R34, R35;
    }
}
pub mod f_fields {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[]) }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "z", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "z", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "yy", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "yy", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R14;
    impl Schema for R14 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "xx", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R15;
    impl Schema for R15 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "xx", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R16;
    impl Schema for R16 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "z", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R17;
    impl Schema for R17 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "z", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R18;
    impl Schema for R18 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "w", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R19;
    impl Schema for R19 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "w", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R20;
    impl Schema for R20 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "f0", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f1", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f2", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f3", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f4", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f5", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f6", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f7", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f8", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f9", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f10", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f11", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f12", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f13", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f14", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f15", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f16", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f17", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f18", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f19", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R21;
    impl Schema for R21 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "f0", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f1", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f2", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f3", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f4", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f5", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f6", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f7", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f8", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f9", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f10", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f11", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f12", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f13", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f14", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f15", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f16", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f17", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f18", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f19", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R22;
    impl Schema for R22 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "f0", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f1", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f2", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f3", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f4", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f5", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f6", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f7", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f8", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f9", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f10", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f11", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f12", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f13", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f14", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f15", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f16", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f17", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f18", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "g", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R23;
    impl Schema for R23 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "f0", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f1", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f2", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f3", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f4", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f5", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f6", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f7", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f8", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f9", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f10", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f11", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f12", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f13", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f14", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f15", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f16", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f17", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f18", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "g", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R24;
    impl Schema for R24 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "f0", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f1", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f2", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f3", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f4", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f5", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f6", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f7", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f8", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f9", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "g", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f11", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f12", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f13", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f14", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f15", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f16", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f17", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f18", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f19", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R25;
    impl Schema for R25 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "f0", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f1", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f2", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f3", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f4", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f5", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f6", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f7", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f8", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f9", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "g", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f11", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f12", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f13", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f14", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f15", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f16", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f17", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f18", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f19", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R26;
    impl Schema for R26 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "f0", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f1", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f2", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f3", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f4", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f5", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f6", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f7", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f8", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f9", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f10", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f11", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f12", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f13", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f14", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f15", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f16", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f17", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f18", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f19", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f20", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R27;
    impl Schema for R27 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "f0", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f1", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f2", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f3", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f4", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f5", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f6", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f7", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f8", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f9", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f10", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f11", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f12", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f13", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f14", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f15", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f16", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f17", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f18", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f19", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "f20", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA, R14::SCHEMA, R15::SCHEMA, R16::SCHEMA, R17::SCHEMA, R18::SCHEMA, R19::SCHEMA, R20::SCHEMA, R21::SCHEMA, R22::SCHEMA, R23::SCHEMA, R24::SCHEMA, R25::SCHEMA, R26::SCHEMA, R27::SCHEMA]) };
    }
    uniq! {
        u_eq_fields: All;
    }
    merged! {
        m_eq_fields: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13, R14, R15, R16, R17, R18, R19, R20, R21, R22, R23, R24, R25, R26, R27;
    }
}
pub mod f_variants {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Va", ty: &W::UnitVariant }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Va", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Va", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Va", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Va", ty: &W::TupleVariant(&[]) }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Va", ty: &W::StructVariant(&[]) }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vb", ty: &W::UnitVariant }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vb", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vb", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vb", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vb", ty: &W::TupleVariant(&[]) }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vb", ty: &W::StructVariant(&[]) }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vab", ty: &W::UnitVariant }]) };
    }
    pub struct R14;
    impl Schema for R14 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vab", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }]) };
    }
    pub struct R15;
    impl Schema for R15 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vab", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R16;
    impl Schema for R16 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vab", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R17;
    impl Schema for R17 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vab", ty: &W::TupleVariant(&[]) }]) };
    }
    pub struct R18;
    impl Schema for R18 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vab", ty: &W::StructVariant(&[]) }]) };
    }
    pub struct R19;
    impl Schema for R19 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Va", ty: &W::UnitVariant }, &NamedVariant { name: "Vc", ty: &W::UnitVariant }]) };
    }
    pub struct R20;
    impl Schema for R20 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Va", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "Vc", ty: &W::UnitVariant }]) };
    }
    pub struct R21;
    impl Schema for R21 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Va", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "Vc", ty: &W::UnitVariant }]) };
    }
    pub struct R22;
    impl Schema for R22 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Va", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "Vc", ty: &W::UnitVariant }]) };
    }
    pub struct R23;
    impl Schema for R23 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Va", ty: &W::TupleVariant(&[]) }, &NamedVariant { name: "Vc", ty: &W::UnitVariant }]) };
    }
    pub struct R24;
    impl Schema for R24 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Va", ty: &W::StructVariant(&[]) }, &NamedVariant { name: "Vc", ty: &W::UnitVariant }]) };
    }
    pub struct R25;
    impl Schema for R25 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vc", ty: &W::UnitVariant }, &NamedVariant { name: "Va", ty: &W::UnitVariant }]) };
    }
    pub struct R26;
    impl Schema for R26 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vc", ty: &W::UnitVariant }, &NamedVariant { name: "Va", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }]) };
    }
    pub struct R27;
    impl Schema for R27 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vc", ty: &W::UnitVariant }, &NamedVariant { name: "Va", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R28;
    impl Schema for R28 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vc", ty: &W::UnitVariant }, &NamedVariant { name: "Va", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R29;
    impl Schema for R29 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vc", ty: &W::UnitVariant }, &NamedVariant { name: "Va", ty: &W::TupleVariant(&[]) }]) };
    }
    pub struct R30;
    impl Schema for R30 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vc", ty: &W::UnitVariant }, &NamedVariant { name: "Va", ty: &W::StructVariant(&[]) }]) };
    }
    pub struct R31;
    impl Schema for R31 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vc", ty: &W::UnitVariant }, &NamedVariant { name: "Vb", ty: &W::UnitVariant }]) };
    }
    pub struct R32;
    impl Schema for R32 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vc", ty: &W::UnitVariant }, &NamedVariant { name: "Vb", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }]) };
    }
    pub struct R33;
    impl Schema for R33 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vc", ty: &W::UnitVariant }, &NamedVariant { name: "Vb", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R34;
    impl Schema for R34 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vc", ty: &W::UnitVariant }, &NamedVariant { name: "Vb", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R35;
    impl Schema for R35 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vc", ty: &W::UnitVariant }, &NamedVariant { name: "Vb", ty: &W::TupleVariant(&[]) }]) };
    }
    pub struct R36;
    impl Schema for R36 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "Vc", ty: &W::UnitVariant }, &NamedVariant { name: "Vb", ty: &W::StructVariant(&[]) }]) };
    }
    pub struct R37;
    impl Schema for R37 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "V0", ty: &W::UnitVariant }, &NamedVariant { name: "V1", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V2", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V3", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V4", ty: &W::UnitVariant }, &NamedVariant { name: "V5", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V6", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V7", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V8", ty: &W::UnitVariant }, &NamedVariant { name: "V9", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V10", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V11", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V12", ty: &W::UnitVariant }, &NamedVariant { name: "V13", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V14", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V15", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V16", ty: &W::UnitVariant }, &NamedVariant { name: "V17", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V18", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V19", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R38;
    impl Schema for R38 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "V0", ty: &W::UnitVariant }, &NamedVariant { name: "V1", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V2", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V3", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V4", ty: &W::UnitVariant }, &NamedVariant { name: "V5", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V6", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V7", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V8", ty: &W::UnitVariant }, &NamedVariant { name: "V9", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V10", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V11", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V12", ty: &W::UnitVariant }, &NamedVariant { name: "V13", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V14", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V15", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V16", ty: &W::UnitVariant }, &NamedVariant { name: "V17", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V18", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V19", ty: &W::UnitVariant }]) };
    }
    pub struct R39;
    impl Schema for R39 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "V0", ty: &W::UnitVariant }, &NamedVariant { name: "V1", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V2", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V3", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V4", ty: &W::UnitVariant }, &NamedVariant { name: "V5", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V6", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V7", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V8", ty: &W::UnitVariant }, &NamedVariant { name: "V9", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V10", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V11", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V12", ty: &W::UnitVariant }, &NamedVariant { name: "V13", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V14", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V15", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V16", ty: &W::UnitVariant }, &NamedVariant { name: "V17", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V18", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "W19", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R40;
    impl Schema for R40 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "V0", ty: &W::UnitVariant }, &NamedVariant { name: "V1", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V2", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V3", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V4", ty: &W::UnitVariant }, &NamedVariant { name: "V5", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V6", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V7", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V8", ty: &W::UnitVariant }, &NamedVariant { name: "V9", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V10", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V11", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V12", ty: &W::UnitVariant }, &NamedVariant { name: "V13", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V14", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V15", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V16", ty: &W::UnitVariant }, &NamedVariant { name: "V17", ty: &W::NewtypeVariant(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedVariant { name: "V18", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V19", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V20", ty: &W::UnitVariant }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA, R14::SCHEMA, R15::SCHEMA, R16::SCHEMA, R17::SCHEMA, R18::SCHEMA, R19::SCHEMA, R20::SCHEMA, R21::SCHEMA, R22::SCHEMA, R23::SCHEMA, R24::SCHEMA, R25::SCHEMA, R26::SCHEMA, R27::SCHEMA, R28::SCHEMA, R29::SCHEMA, R30::SCHEMA, R31::SCHEMA, R32::SCHEMA, R33::SCHEMA, R34::SCHEMA, R35::SCHEMA, R36::SCHEMA, R37::SCHEMA, R38::SCHEMA, R39::SCHEMA, R40::SCHEMA]) };
    }
    uniq! {
        u_eq_variants: All;
    }
    merged! {
        m_eq_variants: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13, R14, R15, R16, R17, R18, R19, R20, R21, R22, R23, R24, R25, R26, R27, R28, R29, R30, R31, R32, R33, R34, R35, R36, R37, R38, R39, R40;
    }
}
pub mod f_names {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::UnitStruct };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "S", ty: &D::UnitStruct };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "S", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "S", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RR", ty: &D::UnitStruct };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RR", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RR", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "SR", ty: &D::UnitStruct };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "SR", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "SR", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RS", ty: &D::UnitStruct };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RS", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R14;
    impl Schema for R14 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RS", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R15;
    impl Schema for R15 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RSR", ty: &D::UnitStruct };
    }
    pub struct R16;
    impl Schema for R16 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RSR", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R17;
    impl Schema for R17 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RSR", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R18;
    impl Schema for R18 {
        const SCHEMA: &'static NamedType = &NamedType { name: "r", ty: &D::UnitStruct };
    }
    pub struct R19;
    impl Schema for R19 {
        const SCHEMA: &'static NamedType = &NamedType { name: "r", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R20;
    impl Schema for R20 {
        const SCHEMA: &'static NamedType = &NamedType { name: "r", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R21;
    impl Schema for R21 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR", ty: &D::UnitStruct };
    }
    pub struct R22;
    impl Schema for R22 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R23;
    impl Schema for R23 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R24;
    impl Schema for R24 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRS", ty: &D::UnitStruct };
    }
    pub struct R25;
    impl Schema for R25 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRS", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R26;
    impl Schema for R26 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRS", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R27;
    impl Schema for R27 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RRRRRRRRRRRRRRRRRRRRSRRRRRRRRRRRRRRRRRRR", ty: &D::UnitStruct };
    }
    pub struct R28;
    impl Schema for R28 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RRRRRRRRRRRRRRRRRRRRSRRRRRRRRRRRRRRRRRRR", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R29;
    impl Schema for R29 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RRRRRRRRRRRRRRRRRRRRSRRRRRRRRRRRRRRRRRRR", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R30;
    impl Schema for R30 {
        const SCHEMA: &'static NamedType = &NamedType { name: "SRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR", ty: &D::UnitStruct };
    }
    pub struct R31;
    impl Schema for R31 {
        const SCHEMA: &'static NamedType = &NamedType { name: "SRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R32;
    impl Schema for R32 {
        const SCHEMA: &'static NamedType = &NamedType { name: "SRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R33;
    impl Schema for R33 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR", ty: &D::UnitStruct };
    }
    pub struct R34;
    impl Schema for R34 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) };
    }
    pub struct R35;
    impl Schema for R35 {
        const SCHEMA: &'static NamedType = &NamedType { name: "RRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRRR", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA, R14::SCHEMA, R15::SCHEMA, R16::SCHEMA, R17::SCHEMA, R18::SCHEMA, R19::SCHEMA, R20::SCHEMA, R21::SCHEMA, R22::SCHEMA, R23::SCHEMA, R24::SCHEMA, R25::SCHEMA, R26::SCHEMA, R27::SCHEMA, R28::SCHEMA, R29::SCHEMA, R30::SCHEMA, R31::SCHEMA, R32::SCHEMA, R33::SCHEMA, R34::SCHEMA, R35::SCHEMA]) };
    }
    uniq! {
        u_eq_names: All;
    }
    merged! {
        m_eq_names: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13, R14, R15, R16, R17, R18, R19, R20, R21, R22, R23, R24, R25, R26, R27, R28, R29, R30, R31, R32, R33, R34, R35;
    }
}
pub mod f_prims {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::Bool }) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::Bool } }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::Bool }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::I8 }) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::I8 } }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::I8 }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::U8 }) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::U8 } }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::U8 }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::I16 }) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::I16 } }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::I16 }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::I32 }) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::I32 } }]) };
    }
    pub struct R14;
    impl Schema for R14 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::I32 }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R15;
    impl Schema for R15 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::I64 }) };
    }
    pub struct R16;
    impl Schema for R16 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::I64 } }]) };
    }
    pub struct R17;
    impl Schema for R17 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::I64 }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R18;
    impl Schema for R18 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::I128 }) };
    }
    pub struct R19;
    impl Schema for R19 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::I128 } }]) };
    }
    pub struct R20;
    impl Schema for R20 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::I128 }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R21;
    impl Schema for R21 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::U16 }) };
    }
    pub struct R22;
    impl Schema for R22 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::U16 } }]) };
    }
    pub struct R23;
    impl Schema for R23 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::U16 }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R24;
    impl Schema for R24 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::U32 }) };
    }
    pub struct R25;
    impl Schema for R25 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::U32 } }]) };
    }
    pub struct R26;
    impl Schema for R26 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::U32 }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R27;
    impl Schema for R27 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::U64 }) };
    }
    pub struct R28;
    impl Schema for R28 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::U64 } }]) };
    }
    pub struct R29;
    impl Schema for R29 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::U64 }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R30;
    impl Schema for R30 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::U128 }) };
    }
    pub struct R31;
    impl Schema for R31 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::U128 } }]) };
    }
    pub struct R32;
    impl Schema for R32 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::U128 }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R33;
    impl Schema for R33 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::Usize }) };
    }
    pub struct R34;
    impl Schema for R34 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::Usize } }]) };
    }
    pub struct R35;
    impl Schema for R35 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::Usize }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R36;
    impl Schema for R36 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::Isize }) };
    }
    pub struct R37;
    impl Schema for R37 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::Isize } }]) };
    }
    pub struct R38;
    impl Schema for R38 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::Isize }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R39;
    impl Schema for R39 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::F32 }) };
    }
    pub struct R40;
    impl Schema for R40 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::F32 } }]) };
    }
    pub struct R41;
    impl Schema for R41 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::F32 }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R42;
    impl Schema for R42 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::F64 }) };
    }
    pub struct R43;
    impl Schema for R43 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::F64 } }]) };
    }
    pub struct R44;
    impl Schema for R44 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::F64 }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R45;
    impl Schema for R45 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::Char }) };
    }
    pub struct R46;
    impl Schema for R46 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::Char } }]) };
    }
    pub struct R47;
    impl Schema for R47 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::Char }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R48;
    impl Schema for R48 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::String }) };
    }
    pub struct R49;
    impl Schema for R49 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::String } }]) };
    }
    pub struct R50;
    impl Schema for R50 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::String }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R51;
    impl Schema for R51 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::ByteArray }) };
    }
    pub struct R52;
    impl Schema for R52 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::ByteArray } }]) };
    }
    pub struct R53;
    impl Schema for R53 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::ByteArray }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R54;
    impl Schema for R54 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::Unit }) };
    }
    pub struct R55;
    impl Schema for R55 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::Unit } }]) };
    }
    pub struct R56;
    impl Schema for R56 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::Unit }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R57;
    impl Schema for R57 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::Schema }) };
    }
    pub struct R58;
    impl Schema for R58 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::Schema } }]) };
    }
    pub struct R59;
    impl Schema for R59 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::Schema }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R60;
    impl Schema for R60 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Option(&NamedType { name: "prim", ty: &D::UnitStruct }) };
    }
    pub struct R61;
    impl Schema for R61 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "prim", ty: &D::UnitStruct } }]) };
    }
    pub struct R62;
    impl Schema for R62 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "prim", ty: &D::UnitStruct }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA, R14::SCHEMA, R15::SCHEMA, R16::SCHEMA, R17::SCHEMA, R18::SCHEMA, R19::SCHEMA, R20::SCHEMA, R21::SCHEMA, R22::SCHEMA, R23::SCHEMA, R24::SCHEMA, R25::SCHEMA, R26::SCHEMA, R27::SCHEMA, R28::SCHEMA, R29::SCHEMA, R30::SCHEMA, R31::SCHEMA, R32::SCHEMA, R33::SCHEMA, R34::SCHEMA, R35::SCHEMA, R36::SCHEMA, R37::SCHEMA, R38::SCHEMA, R39::SCHEMA, R40::SCHEMA, R41::SCHEMA, R42::SCHEMA, R43::SCHEMA, R44::SCHEMA, R45::SCHEMA, R46::SCHEMA, R47::SCHEMA, R48::SCHEMA, R49::SCHEMA, R50::SCHEMA, R51::SCHEMA, R52::SCHEMA, R53::SCHEMA, R54::SCHEMA, R55::SCHEMA, R56::SCHEMA, R57::SCHEMA, R58::SCHEMA, R59::SCHEMA, R60::SCHEMA, R61::SCHEMA, R62::SCHEMA]) };
    }
    uniq! {
        u_eq_prims: All;
    }
    merged! {
        m_eq_prims: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13, R14, R15, R16, R17, R18, R19, R20, R21, R22, R23, R24, R25, R26, R27, R28, R29, R30, R31, R32, R33, R34, R35, R36, R37, R38, R39, R40, R41, R42, R43, R44, R45, R46, R47, R48, R49, R50, R51, R52, R53, R54, R55, R56, R57, R58, R59, R60, R61, R62;
    }
}
pub mod f_deep {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::NewtypeStruct(&NamedType { name: "C10", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C9", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C8", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C7", ty: &D::TupleStruct(&[&NamedType { name: "C6", ty: &D::Seq(&NamedType { name: "C5", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C4", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C3", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C2", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C1", ty: &D::Tuple(&[&NamedType { name: "C0", ty: &D::Option(&NamedType { name: "Deep0", ty: &D::UnitStruct }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }]) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Seq(&NamedType { name: "C10", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C9", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C8", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C7", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C6", ty: &D::Tuple(&[&NamedType { name: "C5", ty: &D::Option(&NamedType { name: "C4", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C3", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C2", ty: &D::Map { key: &NamedType { name: "C1", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C0", ty: &D::NewtypeStruct(&NamedType { name: "Deep1", ty: &D::UnitStruct }) }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } } }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }]) }]) }) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Tuple(&[&NamedType { name: "C10", ty: &D::Option(&NamedType { name: "C9", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C8", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C7", ty: &D::Map { key: &NamedType { name: "C6", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C5", ty: &D::NewtypeStruct(&NamedType { name: "C4", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C3", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C2", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C1", ty: &D::TupleStruct(&[&NamedType { name: "C0", ty: &D::Seq(&NamedType { name: "Deep2", ty: &D::UnitStruct }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }) }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } } }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C10", ty: &D::NewtypeStruct(&NamedType { name: "C9", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C8", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C7", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C6", ty: &D::TupleStruct(&[&NamedType { name: "C5", ty: &D::Seq(&NamedType { name: "C4", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C3", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C2", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C1", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C0", ty: &D::Tuple(&[&NamedType { name: "Deep3", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }]) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }) }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::TupleStruct(&[&NamedType { name: "C10", ty: &D::Seq(&NamedType { name: "C9", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C8", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C7", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C6", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C5", ty: &D::Tuple(&[&NamedType { name: "C4", ty: &D::Option(&NamedType { name: "C3", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C2", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C1", ty: &D::Map { key: &NamedType { name: "C0", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Deep4", ty: &D::UnitStruct }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } } }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }]) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C10", ty: &D::Tuple(&[&NamedType { name: "C9", ty: &D::Option(&NamedType { name: "C8", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C7", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C6", ty: &D::Map { key: &NamedType { name: "C5", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C4", ty: &D::NewtypeStruct(&NamedType { name: "C3", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C2", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C1", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C0", ty: &D::TupleStruct(&[&NamedType { name: "Deep5", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }) }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } } }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Map { key: &NamedType { name: "C10", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C9", ty: &D::NewtypeStruct(&NamedType { name: "C8", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C7", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C6", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C5", ty: &D::TupleStruct(&[&NamedType { name: "C4", ty: &D::Seq(&NamedType { name: "C3", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C2", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C1", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C0", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Deep6", ty: &D::UnitStruct }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }]) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }) }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C10", ty: &D::TupleStruct(&[&NamedType { name: "C9", ty: &D::Seq(&NamedType { name: "C8", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C7", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C6", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C5", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C4", ty: &D::Tuple(&[&NamedType { name: "C3", ty: &D::Option(&NamedType { name: "C2", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C1", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C0", ty: &D::Map { key: &NamedType { name: "Deep7", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } } }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }]) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C10", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C9", ty: &D::Tuple(&[&NamedType { name: "C8", ty: &D::Option(&NamedType { name: "C7", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C6", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C5", ty: &D::Map { key: &NamedType { name: "C4", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C3", ty: &D::NewtypeStruct(&NamedType { name: "C2", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C1", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C0", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "Deep8", ty: &D::UnitStruct } } }) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }) }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } } }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) };
    }
    pub struct R9;
    impl Schema for R9 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C10", ty: &D::Map { key: &NamedType { name: "C9", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C8", ty: &D::NewtypeStruct(&NamedType { name: "C7", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C6", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C5", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C4", ty: &D::TupleStruct(&[&NamedType { name: "C3", ty: &D::Seq(&NamedType { name: "C2", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C1", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C0", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "Deep9", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }]) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }) }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } } }]) };
    }
    pub struct R10;
    impl Schema for R10 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C10", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C9", ty: &D::TupleStruct(&[&NamedType { name: "C8", ty: &D::Seq(&NamedType { name: "C7", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C6", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C5", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C4", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C3", ty: &D::Tuple(&[&NamedType { name: "C2", ty: &D::Option(&NamedType { name: "C1", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C0", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "Deep10", ty: &D::UnitStruct } }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }]) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }) }]) };
    }
    pub struct R11;
    impl Schema for R11 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C10", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C9", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C8", ty: &D::Tuple(&[&NamedType { name: "C7", ty: &D::Option(&NamedType { name: "C6", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C5", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C4", ty: &D::Map { key: &NamedType { name: "C3", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C2", ty: &D::NewtypeStruct(&NamedType { name: "C1", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C0", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "Deep11", ty: &D::UnitStruct }) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }) }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } } }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) };
    }
    pub struct R12;
    impl Schema for R12 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C10", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C9", ty: &D::Map { key: &NamedType { name: "C8", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C7", ty: &D::NewtypeStruct(&NamedType { name: "C6", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C5", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C4", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C3", ty: &D::TupleStruct(&[&NamedType { name: "C2", ty: &D::Seq(&NamedType { name: "C1", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C0", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "Deep12", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }]) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }) }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } } }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) };
    }
    pub struct R13;
    impl Schema for R13 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C10", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C9", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C8", ty: &D::TupleStruct(&[&NamedType { name: "C7", ty: &D::Seq(&NamedType { name: "C6", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C5", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C4", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C3", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C2", ty: &D::Tuple(&[&NamedType { name: "C1", ty: &D::Option(&NamedType { name: "C0", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "Deep13", ty: &D::UnitStruct }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }]) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) };
    }
    pub struct R14;
    impl Schema for R14 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C10", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C9", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C8", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C7", ty: &D::Tuple(&[&NamedType { name: "C6", ty: &D::Option(&NamedType { name: "C5", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C4", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C3", ty: &D::Map { key: &NamedType { name: "C2", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C1", ty: &D::NewtypeStruct(&NamedType { name: "C0", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "Deep14", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }) }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } } }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) } }]) }]) };
    }
    pub struct R15;
    impl Schema for R15 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C11", ty: &D::Option(&NamedType { name: "C10", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C9", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C8", ty: &D::Map { key: &NamedType { name: "C7", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C6", ty: &D::NewtypeStruct(&NamedType { name: "C5", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C4", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C3", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C2", ty: &D::TupleStruct(&[&NamedType { name: "C1", ty: &D::Seq(&NamedType { name: "C0", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "Deep15", ty: &D::UnitStruct } }]) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }) }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }) }]) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } } }]) }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA, R9::SCHEMA, R10::SCHEMA, R11::SCHEMA, R12::SCHEMA, R13::SCHEMA, R14::SCHEMA, R15::SCHEMA]) };
    }
    uniq! {
        u_eq_deep: All;
    }
    merged! {
        m_eq_deep: R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13, R14, R15;
    }
}
pub mod f_deepdiff {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C7", ty: &D::Tuple(&[&NamedType { name: "C6", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C5", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C4", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C3", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C2", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C1", ty: &D::TupleStruct(&[&NamedType { name: "C0", ty: &D::Option(&NamedType { name: "La", ty: &D::UnitStruct }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } }]) } }]) }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C7", ty: &D::Tuple(&[&NamedType { name: "C6", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C5", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C4", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C3", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C2", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C1", ty: &D::TupleStruct(&[&NamedType { name: "C0", ty: &D::Option(&NamedType { name: "Lb", ty: &D::UnitStruct }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } }]) } }]) }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R2;
    impl Schema for R2 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C7", ty: &D::Tuple(&[&NamedType { name: "C6", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "C5", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "C4", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C3", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "q", ty: &NamedType { name: "C2", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C1", ty: &D::TupleStruct(&[&NamedType { name: "C0", ty: &D::Option(&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } }]) } }]) }]) }]) } }, &NamedValue { name: "y", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) } }, &NamedValue { name: "q", ty: &NamedType { name: "La", ty: &D::UnitStruct } }]) }]) }, &NamedType { name: "La", ty: &D::UnitStruct }]) };
    }
    pub struct R3;
    impl Schema for R3 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C7", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C6", ty: &D::NewtypeStruct(&NamedType { name: "C5", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C4", ty: &D::Map { key: &NamedType { name: "C3", ty: &D::Seq(&NamedType { name: "C2", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C1", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C0", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) }) }]) };
    }
    pub struct R4;
    impl Schema for R4 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C7", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C6", ty: &D::NewtypeStruct(&NamedType { name: "C5", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C4", ty: &D::Map { key: &NamedType { name: "C3", ty: &D::Seq(&NamedType { name: "C2", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C1", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C0", ty: &D::Tuple(&[&NamedType { name: "Lb", ty: &D::UnitStruct }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) }) }]) };
    }
    pub struct R5;
    impl Schema for R5 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C7", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C6", ty: &D::NewtypeStruct(&NamedType { name: "C5", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C4", ty: &D::Map { key: &NamedType { name: "C3", ty: &D::Seq(&NamedType { name: "C2", ty: &D::Enum(&[&NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C1", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "C0", ty: &D::Tuple(&[&NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } } }]) }, &NamedVariant { name: "U", ty: &W::UnitVariant }]) }) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) }) }]) };
    }
    pub struct R6;
    impl Schema for R6 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C7", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C6", ty: &D::TupleStruct(&[&NamedType { name: "C5", ty: &D::Option(&NamedType { name: "C4", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C3", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C2", ty: &D::NewtypeStruct(&NamedType { name: "C1", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C0", ty: &D::Map { key: &NamedType { name: "La", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) }) }]) }) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } }]) };
    }
    pub struct R7;
    impl Schema for R7 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C7", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C6", ty: &D::TupleStruct(&[&NamedType { name: "C5", ty: &D::Option(&NamedType { name: "C4", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C3", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C2", ty: &D::NewtypeStruct(&NamedType { name: "C1", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C0", ty: &D::Map { key: &NamedType { name: "Lb", ty: &D::UnitStruct }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) }) }]) }) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } }]) };
    }
    pub struct R8;
    impl Schema for R8 {
        const SCHEMA: &'static NamedType = &NamedType { name: "C7", ty: &D::Struct(&[&NamedValue { name: "x", ty: &NamedType { name: "La", ty: &D::UnitStruct } }, &NamedValue { name: "y", ty: &NamedType { name: "C6", ty: &D::TupleStruct(&[&NamedType { name: "C5", ty: &D::Option(&NamedType { name: "C4", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "N", ty: &W::NewtypeVariant(&NamedType { name: "C3", ty: &D::TupleStruct(&[&NamedType { name: "La", ty: &D::UnitStruct }, &NamedType { name: "C2", ty: &D::NewtypeStruct(&NamedType { name: "C1", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "C0", ty: &D::Map { key: &NamedType { name: "La", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, val: &NamedType { name: "La", ty: &D::UnitStruct } } }, &NamedType { name: "La", ty: &D::UnitStruct }]) }]) }) }]) }) }]) }) }, &NamedType { name: "La", ty: &D::UnitStruct }]) } }]) };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA, R2::SCHEMA, R3::SCHEMA, R4::SCHEMA, R5::SCHEMA, R6::SCHEMA, R7::SCHEMA, R8::SCHEMA]) };
    }
    uniq! {
        u_eq_deepdiff: All;
    }
    merged! {
        m_eq_deepdiff: R0, R1, R2, R3, R4, R5, R6, R7, R8;
    }
}
pub mod f_wide17_0 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R0", ty: &D::Tuple(&[&NamedType { name: "W0", ty: &D::UnitStruct }, &NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W3", ty: &D::Struct(&[]) }, &NamedType { name: "W4", ty: &D::Enum(&[]) }, &NamedType { name: "W5", ty: &D::UnitStruct }, &NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W8", ty: &D::Struct(&[]) }, &NamedType { name: "W9", ty: &D::Enum(&[]) }, &NamedType { name: "W10", ty: &D::UnitStruct }, &NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W13", ty: &D::Struct(&[]) }, &NamedType { name: "W14", ty: &D::Enum(&[]) }, &NamedType { name: "W15", ty: &D::UnitStruct }, &NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide17_0: All;
    }
    merged! {
        m_eq_wide17_0: R0, R1;
    }
}
pub mod f_wide17_1 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R1", ty: &D::TupleStruct(&[&NamedType { name: "W0", ty: &D::UnitStruct }, &NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W3", ty: &D::Struct(&[]) }, &NamedType { name: "W4", ty: &D::Enum(&[]) }, &NamedType { name: "W5", ty: &D::UnitStruct }, &NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W8", ty: &D::Struct(&[]) }, &NamedType { name: "W9", ty: &D::Enum(&[]) }, &NamedType { name: "W10", ty: &D::UnitStruct }, &NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W13", ty: &D::Struct(&[]) }, &NamedType { name: "W14", ty: &D::Enum(&[]) }, &NamedType { name: "W15", ty: &D::UnitStruct }, &NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide17_1: All;
    }
    merged! {
        m_eq_wide17_1: R0, R1;
    }
}
pub mod f_wide17_2 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R2", ty: &D::Struct(&[&NamedValue { name: "f0", ty: &NamedType { name: "W0", ty: &D::UnitStruct } }, &NamedValue { name: "f1", ty: &NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f2", ty: &NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f3", ty: &NamedType { name: "W3", ty: &D::Struct(&[]) } }, &NamedValue { name: "f4", ty: &NamedType { name: "W4", ty: &D::Enum(&[]) } }, &NamedValue { name: "f5", ty: &NamedType { name: "W5", ty: &D::UnitStruct } }, &NamedValue { name: "f6", ty: &NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f7", ty: &NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f8", ty: &NamedType { name: "W8", ty: &D::Struct(&[]) } }, &NamedValue { name: "f9", ty: &NamedType { name: "W9", ty: &D::Enum(&[]) } }, &NamedValue { name: "f10", ty: &NamedType { name: "W10", ty: &D::UnitStruct } }, &NamedValue { name: "f11", ty: &NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f12", ty: &NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f13", ty: &NamedType { name: "W13", ty: &D::Struct(&[]) } }, &NamedValue { name: "f14", ty: &NamedType { name: "W14", ty: &D::Enum(&[]) } }, &NamedValue { name: "f15", ty: &NamedType { name: "W15", ty: &D::UnitStruct } }, &NamedValue { name: "f16", ty: &NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide17_2: All;
    }
    merged! {
        m_eq_wide17_2: R0, R1;
    }
}
pub mod f_wide17_3 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R3", ty: &D::Enum(&[&NamedVariant { name: "V0", ty: &W::NewtypeVariant(&NamedType { name: "W0", ty: &D::UnitStruct }) }, &NamedVariant { name: "V1", ty: &W::NewtypeVariant(&NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V2", ty: &W::NewtypeVariant(&NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V3", ty: &W::NewtypeVariant(&NamedType { name: "W3", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V4", ty: &W::NewtypeVariant(&NamedType { name: "W4", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V5", ty: &W::NewtypeVariant(&NamedType { name: "W5", ty: &D::UnitStruct }) }, &NamedVariant { name: "V6", ty: &W::NewtypeVariant(&NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V7", ty: &W::NewtypeVariant(&NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V8", ty: &W::NewtypeVariant(&NamedType { name: "W8", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V9", ty: &W::NewtypeVariant(&NamedType { name: "W9", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V10", ty: &W::NewtypeVariant(&NamedType { name: "W10", ty: &D::UnitStruct }) }, &NamedVariant { name: "V11", ty: &W::NewtypeVariant(&NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V12", ty: &W::NewtypeVariant(&NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V13", ty: &W::NewtypeVariant(&NamedType { name: "W13", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V14", ty: &W::NewtypeVariant(&NamedType { name: "W14", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V15", ty: &W::NewtypeVariant(&NamedType { name: "W15", ty: &D::UnitStruct }) }, &NamedVariant { name: "V16", ty: &W::NewtypeVariant(&NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide17_3: All;
    }
    merged! {
        m_eq_wide17_3: R0, R1;
    }
}
pub mod f_wide17_4 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R4", ty: &D::Enum(&[&NamedVariant { name: "V0", ty: &W::TupleVariant(&[&NamedType { name: "W0", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V1", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) }, &NamedVariant { name: "V2", ty: &W::TupleVariant(&[&NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }]) }, &NamedVariant { name: "V3", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W3", ty: &D::Struct(&[]) } }]) }, &NamedVariant { name: "V4", ty: &W::TupleVariant(&[&NamedType { name: "W4", ty: &D::Enum(&[]) }]) }, &NamedVariant { name: "V5", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W5", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V6", ty: &W::TupleVariant(&[&NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) }, &NamedVariant { name: "V7", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }]) }, &NamedVariant { name: "V8", ty: &W::TupleVariant(&[&NamedType { name: "W8", ty: &D::Struct(&[]) }]) }, &NamedVariant { name: "V9", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W9", ty: &D::Enum(&[]) } }]) }, &NamedVariant { name: "V10", ty: &W::TupleVariant(&[&NamedType { name: "W10", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V11", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) }, &NamedVariant { name: "V12", ty: &W::TupleVariant(&[&NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }]) }, &NamedVariant { name: "V13", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W13", ty: &D::Struct(&[]) } }]) }, &NamedVariant { name: "V14", ty: &W::TupleVariant(&[&NamedType { name: "W14", ty: &D::Enum(&[]) }]) }, &NamedVariant { name: "V15", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W15", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V16", ty: &W::TupleVariant(&[&NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide17_4: All;
    }
    merged! {
        m_eq_wide17_4: R0, R1;
    }
}
pub mod f_wide17_5 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R5", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "W0", ty: &D::UnitStruct }, &NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W3", ty: &D::Struct(&[]) }, &NamedType { name: "W4", ty: &D::Enum(&[]) }, &NamedType { name: "W5", ty: &D::UnitStruct }, &NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W8", ty: &D::Struct(&[]) }, &NamedType { name: "W9", ty: &D::Enum(&[]) }, &NamedType { name: "W10", ty: &D::UnitStruct }, &NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W13", ty: &D::Struct(&[]) }, &NamedType { name: "W14", ty: &D::Enum(&[]) }, &NamedType { name: "W15", ty: &D::UnitStruct }, &NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide17_5: All;
    }
    merged! {
        m_eq_wide17_5: R0, R1;
    }
}
pub mod f_wide17_6 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R6", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "f0", ty: &NamedType { name: "W0", ty: &D::UnitStruct } }, &NamedValue { name: "f1", ty: &NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f2", ty: &NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f3", ty: &NamedType { name: "W3", ty: &D::Struct(&[]) } }, &NamedValue { name: "f4", ty: &NamedType { name: "W4", ty: &D::Enum(&[]) } }, &NamedValue { name: "f5", ty: &NamedType { name: "W5", ty: &D::UnitStruct } }, &NamedValue { name: "f6", ty: &NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f7", ty: &NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f8", ty: &NamedType { name: "W8", ty: &D::Struct(&[]) } }, &NamedValue { name: "f9", ty: &NamedType { name: "W9", ty: &D::Enum(&[]) } }, &NamedValue { name: "f10", ty: &NamedType { name: "W10", ty: &D::UnitStruct } }, &NamedValue { name: "f11", ty: &NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f12", ty: &NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f13", ty: &NamedType { name: "W13", ty: &D::Struct(&[]) } }, &NamedValue { name: "f14", ty: &NamedType { name: "W14", ty: &D::Enum(&[]) } }, &NamedValue { name: "f15", ty: &NamedType { name: "W15", ty: &D::UnitStruct } }, &NamedValue { name: "f16", ty: &NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide17_6: All;
    }
    merged! {
        m_eq_wide17_6: R0, R1;
    }
}
pub mod f_wide70_0 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R0", ty: &D::Tuple(&[&NamedType { name: "W0", ty: &D::UnitStruct }, &NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W3", ty: &D::Struct(&[]) }, &NamedType { name: "W4", ty: &D::Enum(&[]) }, &NamedType { name: "W5", ty: &D::UnitStruct }, &NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W8", ty: &D::Struct(&[]) }, &NamedType { name: "W9", ty: &D::Enum(&[]) }, &NamedType { name: "W10", ty: &D::UnitStruct }, &NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W13", ty: &D::Struct(&[]) }, &NamedType { name: "W14", ty: &D::Enum(&[]) }, &NamedType { name: "W15", ty: &D::UnitStruct }, &NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W17", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W18", ty: &D::Struct(&[]) }, &NamedType { name: "W19", ty: &D::Enum(&[]) }, &NamedType { name: "W20", ty: &D::UnitStruct }, &NamedType { name: "W21", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W22", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W23", ty: &D::Struct(&[]) }, &NamedType { name: "W24", ty: &D::Enum(&[]) }, &NamedType { name: "W25", ty: &D::UnitStruct }, &NamedType { name: "W26", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W27", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W28", ty: &D::Struct(&[]) }, &NamedType { name: "W29", ty: &D::Enum(&[]) }, &NamedType { name: "W30", ty: &D::UnitStruct }, &NamedType { name: "W31", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W32", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W33", ty: &D::Struct(&[]) }, &NamedType { name: "W34", ty: &D::Enum(&[]) }, &NamedType { name: "W35", ty: &D::UnitStruct }, &NamedType { name: "W36", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W37", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W38", ty: &D::Struct(&[]) }, &NamedType { name: "W39", ty: &D::Enum(&[]) }, &NamedType { name: "W40", ty: &D::UnitStruct }, &NamedType { name: "W41", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W42", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W43", ty: &D::Struct(&[]) }, &NamedType { name: "W44", ty: &D::Enum(&[]) }, &NamedType { name: "W45", ty: &D::UnitStruct }, &NamedType { name: "W46", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W47", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W48", ty: &D::Struct(&[]) }, &NamedType { name: "W49", ty: &D::Enum(&[]) }, &NamedType { name: "W50", ty: &D::UnitStruct }, &NamedType { name: "W51", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W52", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W53", ty: &D::Struct(&[]) }, &NamedType { name: "W54", ty: &D::Enum(&[]) }, &NamedType { name: "W55", ty: &D::UnitStruct }, &NamedType { name: "W56", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W57", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W58", ty: &D::Struct(&[]) }, &NamedType { name: "W59", ty: &D::Enum(&[]) }, &NamedType { name: "W60", ty: &D::UnitStruct }, &NamedType { name: "W61", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W62", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W63", ty: &D::Struct(&[]) }, &NamedType { name: "W64", ty: &D::Enum(&[]) }, &NamedType { name: "W65", ty: &D::UnitStruct }, &NamedType { name: "W66", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W67", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W68", ty: &D::Struct(&[]) }, &NamedType { name: "W69", ty: &D::Enum(&[]) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide70_0: All;
    }
    merged! {
        m_eq_wide70_0: R0, R1;
    }
}
pub mod f_wide70_1 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R1", ty: &D::TupleStruct(&[&NamedType { name: "W0", ty: &D::UnitStruct }, &NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W3", ty: &D::Struct(&[]) }, &NamedType { name: "W4", ty: &D::Enum(&[]) }, &NamedType { name: "W5", ty: &D::UnitStruct }, &NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W8", ty: &D::Struct(&[]) }, &NamedType { name: "W9", ty: &D::Enum(&[]) }, &NamedType { name: "W10", ty: &D::UnitStruct }, &NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W13", ty: &D::Struct(&[]) }, &NamedType { name: "W14", ty: &D::Enum(&[]) }, &NamedType { name: "W15", ty: &D::UnitStruct }, &NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W17", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W18", ty: &D::Struct(&[]) }, &NamedType { name: "W19", ty: &D::Enum(&[]) }, &NamedType { name: "W20", ty: &D::UnitStruct }, &NamedType { name: "W21", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W22", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W23", ty: &D::Struct(&[]) }, &NamedType { name: "W24", ty: &D::Enum(&[]) }, &NamedType { name: "W25", ty: &D::UnitStruct }, &NamedType { name: "W26", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W27", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W28", ty: &D::Struct(&[]) }, &NamedType { name: "W29", ty: &D::Enum(&[]) }, &NamedType { name: "W30", ty: &D::UnitStruct }, &NamedType { name: "W31", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W32", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W33", ty: &D::Struct(&[]) }, &NamedType { name: "W34", ty: &D::Enum(&[]) }, &NamedType { name: "W35", ty: &D::UnitStruct }, &NamedType { name: "W36", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W37", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W38", ty: &D::Struct(&[]) }, &NamedType { name: "W39", ty: &D::Enum(&[]) }, &NamedType { name: "W40", ty: &D::UnitStruct }, &NamedType { name: "W41", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W42", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W43", ty: &D::Struct(&[]) }, &NamedType { name: "W44", ty: &D::Enum(&[]) }, &NamedType { name: "W45", ty: &D::UnitStruct }, &NamedType { name: "W46", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W47", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W48", ty: &D::Struct(&[]) }, &NamedType { name: "W49", ty: &D::Enum(&[]) }, &NamedType { name: "W50", ty: &D::UnitStruct }, &NamedType { name: "W51", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W52", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W53", ty: &D::Struct(&[]) }, &NamedType { name: "W54", ty: &D::Enum(&[]) }, &NamedType { name: "W55", ty: &D::UnitStruct }, &NamedType { name: "W56", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W57", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W58", ty: &D::Struct(&[]) }, &NamedType { name: "W59", ty: &D::Enum(&[]) }, &NamedType { name: "W60", ty: &D::UnitStruct }, &NamedType { name: "W61", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W62", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W63", ty: &D::Struct(&[]) }, &NamedType { name: "W64", ty: &D::Enum(&[]) }, &NamedType { name: "W65", ty: &D::UnitStruct }, &NamedType { name: "W66", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W67", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W68", ty: &D::Struct(&[]) }, &NamedType { name: "W69", ty: &D::Enum(&[]) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide70_1: All;
    }
    merged! {
        m_eq_wide70_1: R0, R1;
    }
}
pub mod f_wide70_2 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R2", ty: &D::Struct(&[&NamedValue { name: "f0", ty: &NamedType { name: "W0", ty: &D::UnitStruct } }, &NamedValue { name: "f1", ty: &NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f2", ty: &NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f3", ty: &NamedType { name: "W3", ty: &D::Struct(&[]) } }, &NamedValue { name: "f4", ty: &NamedType { name: "W4", ty: &D::Enum(&[]) } }, &NamedValue { name: "f5", ty: &NamedType { name: "W5", ty: &D::UnitStruct } }, &NamedValue { name: "f6", ty: &NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f7", ty: &NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f8", ty: &NamedType { name: "W8", ty: &D::Struct(&[]) } }, &NamedValue { name: "f9", ty: &NamedType { name: "W9", ty: &D::Enum(&[]) } }, &NamedValue { name: "f10", ty: &NamedType { name: "W10", ty: &D::UnitStruct } }, &NamedValue { name: "f11", ty: &NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f12", ty: &NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f13", ty: &NamedType { name: "W13", ty: &D::Struct(&[]) } }, &NamedValue { name: "f14", ty: &NamedType { name: "W14", ty: &D::Enum(&[]) } }, &NamedValue { name: "f15", ty: &NamedType { name: "W15", ty: &D::UnitStruct } }, &NamedValue { name: "f16", ty: &NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f17", ty: &NamedType { name: "W17", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f18", ty: &NamedType { name: "W18", ty: &D::Struct(&[]) } }, &NamedValue { name: "f19", ty: &NamedType { name: "W19", ty: &D::Enum(&[]) } }, &NamedValue { name: "f20", ty: &NamedType { name: "W20", ty: &D::UnitStruct } }, &NamedValue { name: "f21", ty: &NamedType { name: "W21", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f22", ty: &NamedType { name: "W22", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f23", ty: &NamedType { name: "W23", ty: &D::Struct(&[]) } }, &NamedValue { name: "f24", ty: &NamedType { name: "W24", ty: &D::Enum(&[]) } }, &NamedValue { name: "f25", ty: &NamedType { name: "W25", ty: &D::UnitStruct } }, &NamedValue { name: "f26", ty: &NamedType { name: "W26", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f27", ty: &NamedType { name: "W27", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f28", ty: &NamedType { name: "W28", ty: &D::Struct(&[]) } }, &NamedValue { name: "f29", ty: &NamedType { name: "W29", ty: &D::Enum(&[]) } }, &NamedValue { name: "f30", ty: &NamedType { name: "W30", ty: &D::UnitStruct } }, &NamedValue { name: "f31", ty: &NamedType { name: "W31", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f32", ty: &NamedType { name: "W32", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f33", ty: &NamedType { name: "W33", ty: &D::Struct(&[]) } }, &NamedValue { name: "f34", ty: &NamedType { name: "W34", ty: &D::Enum(&[]) } }, &NamedValue { name: "f35", ty: &NamedType { name: "W35", ty: &D::UnitStruct } }, &NamedValue { name: "f36", ty: &NamedType { name: "W36", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f37", ty: &NamedType { name: "W37", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f38", ty: &NamedType { name: "W38", ty: &D::Struct(&[]) } }, &NamedValue { name: "f39", ty: &NamedType { name: "W39", ty: &D::Enum(&[]) } }, &NamedValue { name: "f40", ty: &NamedType { name: "W40", ty: &D::UnitStruct } }, &NamedValue { name: "f41", ty: &NamedType { name: "W41", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f42", ty: &NamedType { name: "W42", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f43", ty: &NamedType { name: "W43", ty: &D::Struct(&[]) } }, &NamedValue { name: "f44", ty: &NamedType { name: "W44", ty: &D::Enum(&[]) } }, &NamedValue { name: "f45", ty: &NamedType { name: "W45", ty: &D::UnitStruct } }, &NamedValue { name: "f46", ty: &NamedType { name: "W46", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f47", ty: &NamedType { name: "W47", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f48", ty: &NamedType { name: "W48", ty: &D::Struct(&[]) } }, &NamedValue { name: "f49", ty: &NamedType { name: "W49", ty: &D::Enum(&[]) } }, &NamedValue { name: "f50", ty: &NamedType { name: "W50", ty: &D::UnitStruct } }, &NamedValue { name: "f51", ty: &NamedType { name: "W51", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f52", ty: &NamedType { name: "W52", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f53", ty: &NamedType { name: "W53", ty: &D::Struct(&[]) } }, &NamedValue { name: "f54", ty: &NamedType { name: "W54", ty: &D::Enum(&[]) } }, &NamedValue { name: "f55", ty: &NamedType { name: "W55", ty: &D::UnitStruct } }, &NamedValue { name: "f56", ty: &NamedType { name: "W56", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f57", ty: &NamedType { name: "W57", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f58", ty: &NamedType { name: "W58", ty: &D::Struct(&[]) } }, &NamedValue { name: "f59", ty: &NamedType { name: "W59", ty: &D::Enum(&[]) } }, &NamedValue { name: "f60", ty: &NamedType { name: "W60", ty: &D::UnitStruct } }, &NamedValue { name: "f61", ty: &NamedType { name: "W61", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f62", ty: &NamedType { name: "W62", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f63", ty: &NamedType { name: "W63", ty: &D::Struct(&[]) } }, &NamedValue { name: "f64", ty: &NamedType { name: "W64", ty: &D::Enum(&[]) } }, &NamedValue { name: "f65", ty: &NamedType { name: "W65", ty: &D::UnitStruct } }, &NamedValue { name: "f66", ty: &NamedType { name: "W66", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f67", ty: &NamedType { name: "W67", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f68", ty: &NamedType { name: "W68", ty: &D::Struct(&[]) } }, &NamedValue { name: "f69", ty: &NamedType { name: "W69", ty: &D::Enum(&[]) } }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide70_2: All;
    }
    merged! {
        m_eq_wide70_2: R0, R1;
    }
}
pub mod f_wide70_3 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R3", ty: &D::Enum(&[&NamedVariant { name: "V0", ty: &W::NewtypeVariant(&NamedType { name: "W0", ty: &D::UnitStruct }) }, &NamedVariant { name: "V1", ty: &W::NewtypeVariant(&NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V2", ty: &W::NewtypeVariant(&NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V3", ty: &W::NewtypeVariant(&NamedType { name: "W3", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V4", ty: &W::NewtypeVariant(&NamedType { name: "W4", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V5", ty: &W::NewtypeVariant(&NamedType { name: "W5", ty: &D::UnitStruct }) }, &NamedVariant { name: "V6", ty: &W::NewtypeVariant(&NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V7", ty: &W::NewtypeVariant(&NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V8", ty: &W::NewtypeVariant(&NamedType { name: "W8", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V9", ty: &W::NewtypeVariant(&NamedType { name: "W9", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V10", ty: &W::NewtypeVariant(&NamedType { name: "W10", ty: &D::UnitStruct }) }, &NamedVariant { name: "V11", ty: &W::NewtypeVariant(&NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V12", ty: &W::NewtypeVariant(&NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V13", ty: &W::NewtypeVariant(&NamedType { name: "W13", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V14", ty: &W::NewtypeVariant(&NamedType { name: "W14", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V15", ty: &W::NewtypeVariant(&NamedType { name: "W15", ty: &D::UnitStruct }) }, &NamedVariant { name: "V16", ty: &W::NewtypeVariant(&NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V17", ty: &W::NewtypeVariant(&NamedType { name: "W17", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V18", ty: &W::NewtypeVariant(&NamedType { name: "W18", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V19", ty: &W::NewtypeVariant(&NamedType { name: "W19", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V20", ty: &W::NewtypeVariant(&NamedType { name: "W20", ty: &D::UnitStruct }) }, &NamedVariant { name: "V21", ty: &W::NewtypeVariant(&NamedType { name: "W21", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V22", ty: &W::NewtypeVariant(&NamedType { name: "W22", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V23", ty: &W::NewtypeVariant(&NamedType { name: "W23", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V24", ty: &W::NewtypeVariant(&NamedType { name: "W24", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V25", ty: &W::NewtypeVariant(&NamedType { name: "W25", ty: &D::UnitStruct }) }, &NamedVariant { name: "V26", ty: &W::NewtypeVariant(&NamedType { name: "W26", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V27", ty: &W::NewtypeVariant(&NamedType { name: "W27", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V28", ty: &W::NewtypeVariant(&NamedType { name: "W28", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V29", ty: &W::NewtypeVariant(&NamedType { name: "W29", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V30", ty: &W::NewtypeVariant(&NamedType { name: "W30", ty: &D::UnitStruct }) }, &NamedVariant { name: "V31", ty: &W::NewtypeVariant(&NamedType { name: "W31", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V32", ty: &W::NewtypeVariant(&NamedType { name: "W32", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V33", ty: &W::NewtypeVariant(&NamedType { name: "W33", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V34", ty: &W::NewtypeVariant(&NamedType { name: "W34", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V35", ty: &W::NewtypeVariant(&NamedType { name: "W35", ty: &D::UnitStruct }) }, &NamedVariant { name: "V36", ty: &W::NewtypeVariant(&NamedType { name: "W36", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V37", ty: &W::NewtypeVariant(&NamedType { name: "W37", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V38", ty: &W::NewtypeVariant(&NamedType { name: "W38", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V39", ty: &W::NewtypeVariant(&NamedType { name: "W39", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V40", ty: &W::NewtypeVariant(&NamedType { name: "W40", ty: &D::UnitStruct }) }, &NamedVariant { name: "V41", ty: &W::NewtypeVariant(&NamedType { name: "W41", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V42", ty: &W::NewtypeVariant(&NamedType { name: "W42", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V43", ty: &W::NewtypeVariant(&NamedType { name: "W43", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V44", ty: &W::NewtypeVariant(&NamedType { name: "W44", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V45", ty: &W::NewtypeVariant(&NamedType { name: "W45", ty: &D::UnitStruct }) }, &NamedVariant { name: "V46", ty: &W::NewtypeVariant(&NamedType { name: "W46", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V47", ty: &W::NewtypeVariant(&NamedType { name: "W47", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V48", ty: &W::NewtypeVariant(&NamedType { name: "W48", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V49", ty: &W::NewtypeVariant(&NamedType { name: "W49", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V50", ty: &W::NewtypeVariant(&NamedType { name: "W50", ty: &D::UnitStruct }) }, &NamedVariant { name: "V51", ty: &W::NewtypeVariant(&NamedType { name: "W51", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V52", ty: &W::NewtypeVariant(&NamedType { name: "W52", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V53", ty: &W::NewtypeVariant(&NamedType { name: "W53", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V54", ty: &W::NewtypeVariant(&NamedType { name: "W54", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V55", ty: &W::NewtypeVariant(&NamedType { name: "W55", ty: &D::UnitStruct }) }, &NamedVariant { name: "V56", ty: &W::NewtypeVariant(&NamedType { name: "W56", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V57", ty: &W::NewtypeVariant(&NamedType { name: "W57", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V58", ty: &W::NewtypeVariant(&NamedType { name: "W58", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V59", ty: &W::NewtypeVariant(&NamedType { name: "W59", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V60", ty: &W::NewtypeVariant(&NamedType { name: "W60", ty: &D::UnitStruct }) }, &NamedVariant { name: "V61", ty: &W::NewtypeVariant(&NamedType { name: "W61", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V62", ty: &W::NewtypeVariant(&NamedType { name: "W62", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V63", ty: &W::NewtypeVariant(&NamedType { name: "W63", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V64", ty: &W::NewtypeVariant(&NamedType { name: "W64", ty: &D::Enum(&[]) }) }, &NamedVariant { name: "V65", ty: &W::NewtypeVariant(&NamedType { name: "W65", ty: &D::UnitStruct }) }, &NamedVariant { name: "V66", ty: &W::NewtypeVariant(&NamedType { name: "W66", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }) }, &NamedVariant { name: "V67", ty: &W::NewtypeVariant(&NamedType { name: "W67", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }) }, &NamedVariant { name: "V68", ty: &W::NewtypeVariant(&NamedType { name: "W68", ty: &D::Struct(&[]) }) }, &NamedVariant { name: "V69", ty: &W::NewtypeVariant(&NamedType { name: "W69", ty: &D::Enum(&[]) }) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide70_3: All;
    }
    merged! {
        m_eq_wide70_3: R0, R1;
    }
}
pub mod f_wide70_4 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R4", ty: &D::Enum(&[&NamedVariant { name: "V0", ty: &W::TupleVariant(&[&NamedType { name: "W0", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V1", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) }, &NamedVariant { name: "V2", ty: &W::TupleVariant(&[&NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }]) }, &NamedVariant { name: "V3", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W3", ty: &D::Struct(&[]) } }]) }, &NamedVariant { name: "V4", ty: &W::TupleVariant(&[&NamedType { name: "W4", ty: &D::Enum(&[]) }]) }, &NamedVariant { name: "V5", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W5", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V6", ty: &W::TupleVariant(&[&NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) }, &NamedVariant { name: "V7", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }]) }, &NamedVariant { name: "V8", ty: &W::TupleVariant(&[&NamedType { name: "W8", ty: &D::Struct(&[]) }]) }, &NamedVariant { name: "V9", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W9", ty: &D::Enum(&[]) } }]) }, &NamedVariant { name: "V10", ty: &W::TupleVariant(&[&NamedType { name: "W10", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V11", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) }, &NamedVariant { name: "V12", ty: &W::TupleVariant(&[&NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }]) }, &NamedVariant { name: "V13", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W13", ty: &D::Struct(&[]) } }]) }, &NamedVariant { name: "V14", ty: &W::TupleVariant(&[&NamedType { name: "W14", ty: &D::Enum(&[]) }]) }, &NamedVariant { name: "V15", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W15", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V16", ty: &W::TupleVariant(&[&NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) }, &NamedVariant { name: "V17", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W17", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }]) }, &NamedVariant { name: "V18", ty: &W::TupleVariant(&[&NamedType { name: "W18", ty: &D::Struct(&[]) }]) }, &NamedVariant { name: "V19", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W19", ty: &D::Enum(&[]) } }]) }, &NamedVariant { name: "V20", ty: &W::TupleVariant(&[&NamedType { name: "W20", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V21", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W21", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) }, &NamedVariant { name: "V22", ty: &W::TupleVariant(&[&NamedType { name: "W22", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }]) }, &NamedVariant { name: "V23", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W23", ty: &D::Struct(&[]) } }]) }, &NamedVariant { name: "V24", ty: &W::TupleVariant(&[&NamedType { name: "W24", ty: &D::Enum(&[]) }]) }, &NamedVariant { name: "V25", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W25", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V26", ty: &W::TupleVariant(&[&NamedType { name: "W26", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) }, &NamedVariant { name: "V27", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W27", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }]) }, &NamedVariant { name: "V28", ty: &W::TupleVariant(&[&NamedType { name: "W28", ty: &D::Struct(&[]) }]) }, &NamedVariant { name: "V29", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W29", ty: &D::Enum(&[]) } }]) }, &NamedVariant { name: "V30", ty: &W::TupleVariant(&[&NamedType { name: "W30", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V31", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W31", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) }, &NamedVariant { name: "V32", ty: &W::TupleVariant(&[&NamedType { name: "W32", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }]) }, &NamedVariant { name: "V33", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W33", ty: &D::Struct(&[]) } }]) }, &NamedVariant { name: "V34", ty: &W::TupleVariant(&[&NamedType { name: "W34", ty: &D::Enum(&[]) }]) }, &NamedVariant { name: "V35", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W35", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V36", ty: &W::TupleVariant(&[&NamedType { name: "W36", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) }, &NamedVariant { name: "V37", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W37", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }]) }, &NamedVariant { name: "V38", ty: &W::TupleVariant(&[&NamedType { name: "W38", ty: &D::Struct(&[]) }]) }, &NamedVariant { name: "V39", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W39", ty: &D::Enum(&[]) } }]) }, &NamedVariant { name: "V40", ty: &W::TupleVariant(&[&NamedType { name: "W40", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V41", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W41", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) }, &NamedVariant { name: "V42", ty: &W::TupleVariant(&[&NamedType { name: "W42", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }]) }, &NamedVariant { name: "V43", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W43", ty: &D::Struct(&[]) } }]) }, &NamedVariant { name: "V44", ty: &W::TupleVariant(&[&NamedType { name: "W44", ty: &D::Enum(&[]) }]) }, &NamedVariant { name: "V45", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W45", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V46", ty: &W::TupleVariant(&[&NamedType { name: "W46", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) }, &NamedVariant { name: "V47", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W47", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }]) }, &NamedVariant { name: "V48", ty: &W::TupleVariant(&[&NamedType { name: "W48", ty: &D::Struct(&[]) }]) }, &NamedVariant { name: "V49", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W49", ty: &D::Enum(&[]) } }]) }, &NamedVariant { name: "V50", ty: &W::TupleVariant(&[&NamedType { name: "W50", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V51", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W51", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) }, &NamedVariant { name: "V52", ty: &W::TupleVariant(&[&NamedType { name: "W52", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }]) }, &NamedVariant { name: "V53", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W53", ty: &D::Struct(&[]) } }]) }, &NamedVariant { name: "V54", ty: &W::TupleVariant(&[&NamedType { name: "W54", ty: &D::Enum(&[]) }]) }, &NamedVariant { name: "V55", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W55", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V56", ty: &W::TupleVariant(&[&NamedType { name: "W56", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) }, &NamedVariant { name: "V57", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W57", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }]) }, &NamedVariant { name: "V58", ty: &W::TupleVariant(&[&NamedType { name: "W58", ty: &D::Struct(&[]) }]) }, &NamedVariant { name: "V59", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W59", ty: &D::Enum(&[]) } }]) }, &NamedVariant { name: "V60", ty: &W::TupleVariant(&[&NamedType { name: "W60", ty: &D::UnitStruct }]) }, &NamedVariant { name: "V61", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W61", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }]) }, &NamedVariant { name: "V62", ty: &W::TupleVariant(&[&NamedType { name: "W62", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }]) }, &NamedVariant { name: "V63", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W63", ty: &D::Struct(&[]) } }]) }, &NamedVariant { name: "V64", ty: &W::TupleVariant(&[&NamedType { name: "W64", ty: &D::Enum(&[]) }]) }, &NamedVariant { name: "V65", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W65", ty: &D::UnitStruct } }]) }, &NamedVariant { name: "V66", ty: &W::TupleVariant(&[&NamedType { name: "W66", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }]) }, &NamedVariant { name: "V67", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W67", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }]) }, &NamedVariant { name: "V68", ty: &W::TupleVariant(&[&NamedType { name: "W68", ty: &D::Struct(&[]) }]) }, &NamedVariant { name: "V69", ty: &W::StructVariant(&[&NamedValue { name: "p", ty: &NamedType { name: "W69", ty: &D::Enum(&[]) } }]) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide70_4: All;
    }
    merged! {
        m_eq_wide70_4: R0, R1;
    }
}
pub mod f_wide70_5 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R5", ty: &D::Enum(&[&NamedVariant { name: "U", ty: &W::UnitVariant }, &NamedVariant { name: "T", ty: &W::TupleVariant(&[&NamedType { name: "W0", ty: &D::UnitStruct }, &NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W3", ty: &D::Struct(&[]) }, &NamedType { name: "W4", ty: &D::Enum(&[]) }, &NamedType { name: "W5", ty: &D::UnitStruct }, &NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W8", ty: &D::Struct(&[]) }, &NamedType { name: "W9", ty: &D::Enum(&[]) }, &NamedType { name: "W10", ty: &D::UnitStruct }, &NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W13", ty: &D::Struct(&[]) }, &NamedType { name: "W14", ty: &D::Enum(&[]) }, &NamedType { name: "W15", ty: &D::UnitStruct }, &NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W17", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W18", ty: &D::Struct(&[]) }, &NamedType { name: "W19", ty: &D::Enum(&[]) }, &NamedType { name: "W20", ty: &D::UnitStruct }, &NamedType { name: "W21", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W22", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W23", ty: &D::Struct(&[]) }, &NamedType { name: "W24", ty: &D::Enum(&[]) }, &NamedType { name: "W25", ty: &D::UnitStruct }, &NamedType { name: "W26", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W27", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W28", ty: &D::Struct(&[]) }, &NamedType { name: "W29", ty: &D::Enum(&[]) }, &NamedType { name: "W30", ty: &D::UnitStruct }, &NamedType { name: "W31", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W32", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W33", ty: &D::Struct(&[]) }, &NamedType { name: "W34", ty: &D::Enum(&[]) }, &NamedType { name: "W35", ty: &D::UnitStruct }, &NamedType { name: "W36", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W37", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W38", ty: &D::Struct(&[]) }, &NamedType { name: "W39", ty: &D::Enum(&[]) }, &NamedType { name: "W40", ty: &D::UnitStruct }, &NamedType { name: "W41", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W42", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W43", ty: &D::Struct(&[]) }, &NamedType { name: "W44", ty: &D::Enum(&[]) }, &NamedType { name: "W45", ty: &D::UnitStruct }, &NamedType { name: "W46", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W47", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W48", ty: &D::Struct(&[]) }, &NamedType { name: "W49", ty: &D::Enum(&[]) }, &NamedType { name: "W50", ty: &D::UnitStruct }, &NamedType { name: "W51", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W52", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W53", ty: &D::Struct(&[]) }, &NamedType { name: "W54", ty: &D::Enum(&[]) }, &NamedType { name: "W55", ty: &D::UnitStruct }, &NamedType { name: "W56", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W57", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W58", ty: &D::Struct(&[]) }, &NamedType { name: "W59", ty: &D::Enum(&[]) }, &NamedType { name: "W60", ty: &D::UnitStruct }, &NamedType { name: "W61", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W62", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W63", ty: &D::Struct(&[]) }, &NamedType { name: "W64", ty: &D::Enum(&[]) }, &NamedType { name: "W65", ty: &D::UnitStruct }, &NamedType { name: "W66", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) }, &NamedType { name: "W67", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) }, &NamedType { name: "W68", ty: &D::Struct(&[]) }, &NamedType { name: "W69", ty: &D::Enum(&[]) }]) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide70_5: All;
    }
    merged! {
        m_eq_wide70_5: R0, R1;
    }
}
pub mod f_wide70_6 {
    use super::*;
    pub struct R0;
    impl Schema for R0 {
        const SCHEMA: &'static NamedType = &NamedType { name: "R6", ty: &D::Enum(&[&NamedVariant { name: "S", ty: &W::StructVariant(&[&NamedValue { name: "f0", ty: &NamedType { name: "W0", ty: &D::UnitStruct } }, &NamedValue { name: "f1", ty: &NamedType { name: "W1", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f2", ty: &NamedType { name: "W2", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f3", ty: &NamedType { name: "W3", ty: &D::Struct(&[]) } }, &NamedValue { name: "f4", ty: &NamedType { name: "W4", ty: &D::Enum(&[]) } }, &NamedValue { name: "f5", ty: &NamedType { name: "W5", ty: &D::UnitStruct } }, &NamedValue { name: "f6", ty: &NamedType { name: "W6", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f7", ty: &NamedType { name: "W7", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f8", ty: &NamedType { name: "W8", ty: &D::Struct(&[]) } }, &NamedValue { name: "f9", ty: &NamedType { name: "W9", ty: &D::Enum(&[]) } }, &NamedValue { name: "f10", ty: &NamedType { name: "W10", ty: &D::UnitStruct } }, &NamedValue { name: "f11", ty: &NamedType { name: "W11", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f12", ty: &NamedType { name: "W12", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f13", ty: &NamedType { name: "W13", ty: &D::Struct(&[]) } }, &NamedValue { name: "f14", ty: &NamedType { name: "W14", ty: &D::Enum(&[]) } }, &NamedValue { name: "f15", ty: &NamedType { name: "W15", ty: &D::UnitStruct } }, &NamedValue { name: "f16", ty: &NamedType { name: "W16", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f17", ty: &NamedType { name: "W17", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f18", ty: &NamedType { name: "W18", ty: &D::Struct(&[]) } }, &NamedValue { name: "f19", ty: &NamedType { name: "W19", ty: &D::Enum(&[]) } }, &NamedValue { name: "f20", ty: &NamedType { name: "W20", ty: &D::UnitStruct } }, &NamedValue { name: "f21", ty: &NamedType { name: "W21", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f22", ty: &NamedType { name: "W22", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f23", ty: &NamedType { name: "W23", ty: &D::Struct(&[]) } }, &NamedValue { name: "f24", ty: &NamedType { name: "W24", ty: &D::Enum(&[]) } }, &NamedValue { name: "f25", ty: &NamedType { name: "W25", ty: &D::UnitStruct } }, &NamedValue { name: "f26", ty: &NamedType { name: "W26", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f27", ty: &NamedType { name: "W27", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f28", ty: &NamedType { name: "W28", ty: &D::Struct(&[]) } }, &NamedValue { name: "f29", ty: &NamedType { name: "W29", ty: &D::Enum(&[]) } }, &NamedValue { name: "f30", ty: &NamedType { name: "W30", ty: &D::UnitStruct } }, &NamedValue { name: "f31", ty: &NamedType { name: "W31", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f32", ty: &NamedType { name: "W32", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f33", ty: &NamedType { name: "W33", ty: &D::Struct(&[]) } }, &NamedValue { name: "f34", ty: &NamedType { name: "W34", ty: &D::Enum(&[]) } }, &NamedValue { name: "f35", ty: &NamedType { name: "W35", ty: &D::UnitStruct } }, &NamedValue { name: "f36", ty: &NamedType { name: "W36", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f37", ty: &NamedType { name: "W37", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f38", ty: &NamedType { name: "W38", ty: &D::Struct(&[]) } }, &NamedValue { name: "f39", ty: &NamedType { name: "W39", ty: &D::Enum(&[]) } }, &NamedValue { name: "f40", ty: &NamedType { name: "W40", ty: &D::UnitStruct } }, &NamedValue { name: "f41", ty: &NamedType { name: "W41", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f42", ty: &NamedType { name: "W42", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f43", ty: &NamedType { name: "W43", ty: &D::Struct(&[]) } }, &NamedValue { name: "f44", ty: &NamedType { name: "W44", ty: &D::Enum(&[]) } }, &NamedValue { name: "f45", ty: &NamedType { name: "W45", ty: &D::UnitStruct } }, &NamedValue { name: "f46", ty: &NamedType { name: "W46", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f47", ty: &NamedType { name: "W47", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f48", ty: &NamedType { name: "W48", ty: &D::Struct(&[]) } }, &NamedValue { name: "f49", ty: &NamedType { name: "W49", ty: &D::Enum(&[]) } }, &NamedValue { name: "f50", ty: &NamedType { name: "W50", ty: &D::UnitStruct } }, &NamedValue { name: "f51", ty: &NamedType { name: "W51", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f52", ty: &NamedType { name: "W52", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f53", ty: &NamedType { name: "W53", ty: &D::Struct(&[]) } }, &NamedValue { name: "f54", ty: &NamedType { name: "W54", ty: &D::Enum(&[]) } }, &NamedValue { name: "f55", ty: &NamedType { name: "W55", ty: &D::UnitStruct } }, &NamedValue { name: "f56", ty: &NamedType { name: "W56", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f57", ty: &NamedType { name: "W57", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f58", ty: &NamedType { name: "W58", ty: &D::Struct(&[]) } }, &NamedValue { name: "f59", ty: &NamedType { name: "W59", ty: &D::Enum(&[]) } }, &NamedValue { name: "f60", ty: &NamedType { name: "W60", ty: &D::UnitStruct } }, &NamedValue { name: "f61", ty: &NamedType { name: "W61", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f62", ty: &NamedType { name: "W62", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f63", ty: &NamedType { name: "W63", ty: &D::Struct(&[]) } }, &NamedValue { name: "f64", ty: &NamedType { name: "W64", ty: &D::Enum(&[]) } }, &NamedValue { name: "f65", ty: &NamedType { name: "W65", ty: &D::UnitStruct } }, &NamedValue { name: "f66", ty: &NamedType { name: "W66", ty: &D::NewtypeStruct(&NamedType { name: "u8", ty: &D::U8 }) } }, &NamedValue { name: "f67", ty: &NamedType { name: "W67", ty: &D::NewtypeStruct(&NamedType { name: "u16", ty: &D::U16 }) } }, &NamedValue { name: "f68", ty: &NamedType { name: "W68", ty: &D::Struct(&[]) } }, &NamedValue { name: "f69", ty: &NamedType { name: "W69", ty: &D::Enum(&[]) } }]) }]) };
    }
    pub struct R1;
    impl Schema for R1 {
        const SCHEMA: &'static NamedType = &NamedType { name: "La", ty: &D::UnitStruct };
    }
    pub struct All;
    impl Schema for All {
        const SCHEMA: &'static NamedType = &NamedType { name: "All", ty: &D::Tuple(&[R0::SCHEMA, R1::SCHEMA]) };
    }
    uniq! {
        u_eq_wide70_6: All;
    }
    merged! {
        m_eq_wide70_6: R0, R1;
    }
}
