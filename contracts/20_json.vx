@file src/graphql/schema/json.rs
@mod graphql::schema::json
@use use serde::Deserialize; =>
@use use std::io::Read; =>
@header
use crate::vx::*;
use crate::vx::stdx::io::Read;
@footer
/// what serde reads from the file, if it is the JSON of an introspection
pub open spec fn read_json(path: Seq<char>) -> Option<Schema> {
    match serde_json::parsed::<RawSchema>(path) { Ok(j) => Some(j.data.schema), Err(_) => None }
}
@fn Schema::try_from_reader
@tag C17
@spec
    ensures r is Ok <==> read_json(reader.path()) is Some, r is Ok ==> read_json(reader.path()) == Some(r->Ok_0),
@end
