//! The standard protocol as a device built without `use-std` sees it.
#![no_std]
use postcard_rpc::standard_icd::*;
use postcard_rpc::{Endpoint, Key, Topic};
use postcard_schema::{schema::NamedType, Schema};

pub const PING: [Key; 2] = [PingEndpoint::REQ_KEY, PingEndpoint::RESP_KEY];
pub const SCHEMAS: [Key; 2] = [GetAllSchemasEndpoint::REQ_KEY, GetAllSchemasEndpoint::RESP_KEY];
pub const DATA: [Key; 1] = [<GetAllSchemaDataTopic<'static> as Topic>::TOPIC_KEY];
pub const LOG: [Key; 1] = [<LoggingTopic as Topic>::TOPIC_KEY];
pub const ERR: [Key; 1] = [ERROR_KEY];
pub const DATA_TY: &NamedType = <SchemaData<'static> as Schema>::SCHEMA;
pub const TOTALS_TY: &NamedType = <SchemaTotals as Schema>::SCHEMA;
pub const ERR_TY: &NamedType = <WireError as Schema>::SCHEMA;
pub const LOG_TY: &NamedType = <<LoggingTopic as Topic>::Message as Schema>::SCHEMA;
