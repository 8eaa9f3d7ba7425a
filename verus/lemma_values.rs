// RFC 5545 names: value types, CLASS, STATUS, RELATED, ACTION.
pub mod lemma_values {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::properties::*;
#[allow(unused_imports)] use crate::value_types::ValueType;

/// RFC 5545, 8.3.4
pub open spec fn vt_name(t: ValueType) -> Seq<char> {
    match t {
        ValueType::Binary => "BINARY"@,
        ValueType::Boolean => "BOOLEAN"@,
        ValueType::CalAddress => "CAL-ADDRESS"@,
        ValueType::Date => "DATE"@,
        ValueType::DateTime => "DATE-TIME"@,
        ValueType::Duration => "DURATION"@,
        ValueType::Float => "FLOAT"@,
        ValueType::Integer => "INTEGER"@,
        ValueType::Period => "PERIOD"@,
        ValueType::Recur => "RECUR"@,
        ValueType::Text => "TEXT"@,
        ValueType::Time => "TIME"@,
        ValueType::Uri => "URI"@,
        ValueType::UtcOffset => "UTC-OFFSET"@,
    }
}
pub open spec fn vt_name_of(s: Seq<char>) -> Option<ValueType> {
    if s == "BINARY"@ { Some(ValueType::Binary) } else
    if s == "BOOLEAN"@ { Some(ValueType::Boolean) } else
    if s == "CAL-ADDRESS"@ { Some(ValueType::CalAddress) } else
    if s == "DATE"@ { Some(ValueType::Date) } else
    if s == "DATE-TIME"@ { Some(ValueType::DateTime) } else
    if s == "DURATION"@ { Some(ValueType::Duration) } else
    if s == "FLOAT"@ { Some(ValueType::Float) } else
    if s == "INTEGER"@ { Some(ValueType::Integer) } else
    if s == "PERIOD"@ { Some(ValueType::Period) } else
    if s == "RECUR"@ { Some(ValueType::Recur) } else
    if s == "TEXT"@ { Some(ValueType::Text) } else
    if s == "TIME"@ { Some(ValueType::Time) } else
    if s == "URI"@ { Some(ValueType::Uri) } else
    if s == "UTC-OFFSET"@ { Some(ValueType::UtcOffset) } else
    { None }
}
/// the name of a value names it
pub proof fn lemma_vt_name(t: ValueType) ensures vt_name_of(vt_name(t)) == Some(t)
{ lits!("BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR", "TEXT", "TIME", "URI", "UTC-OFFSET"); }
/// RFC 5545, 3.8.1.3
pub open spec fn class_name(t: Class) -> Seq<char> {
    match t {
        Class::Public => "PUBLIC"@,
        Class::Private => "PRIVATE"@,
        Class::Confidential => "CONFIDENTIAL"@,
    }
}
pub open spec fn class_name_of(s: Seq<char>) -> Option<Class> {
    if s == "PUBLIC"@ { Some(Class::Public) } else
    if s == "PRIVATE"@ { Some(Class::Private) } else
    if s == "CONFIDENTIAL"@ { Some(Class::Confidential) } else
    { None }
}
/// the name of a value names it
pub proof fn lemma_class_name(t: Class) ensures class_name_of(class_name(t)) == Some(t)
{ lits!("PUBLIC", "PRIVATE", "CONFIDENTIAL"); }
/// RFC 5545, 3.8.1.11
pub open spec fn estatus_name(t: EventStatus) -> Seq<char> {
    match t {
        EventStatus::Tentative => "TENTATIVE"@,
        EventStatus::Confirmed => "CONFIRMED"@,
        EventStatus::Cancelled => "CANCELLED"@,
    }
}
pub open spec fn estatus_name_of(s: Seq<char>) -> Option<EventStatus> {
    if s == "TENTATIVE"@ { Some(EventStatus::Tentative) } else
    if s == "CONFIRMED"@ { Some(EventStatus::Confirmed) } else
    if s == "CANCELLED"@ { Some(EventStatus::Cancelled) } else
    { None }
}
/// the name of a value names it
pub proof fn lemma_estatus_name(t: EventStatus) ensures estatus_name_of(estatus_name(t)) == Some(t)
{ lits!("TENTATIVE", "CONFIRMED", "CANCELLED"); }
/// RFC 5545, 3.8.1.11
pub open spec fn tstatus_name(t: TodoStatus) -> Seq<char> {
    match t {
        TodoStatus::NeedsAction => "NEEDS-ACTION"@,
        TodoStatus::Completed => "COMPLETED"@,
        TodoStatus::InProcess => "IN-PROCESS"@,
        TodoStatus::Cancelled => "CANCELLED"@,
    }
}
pub open spec fn tstatus_name_of(s: Seq<char>) -> Option<TodoStatus> {
    if s == "NEEDS-ACTION"@ { Some(TodoStatus::NeedsAction) } else
    if s == "COMPLETED"@ { Some(TodoStatus::Completed) } else
    if s == "IN-PROCESS"@ { Some(TodoStatus::InProcess) } else
    if s == "CANCELLED"@ { Some(TodoStatus::Cancelled) } else
    { None }
}
/// the name of a value names it
pub proof fn lemma_tstatus_name(t: TodoStatus) ensures tstatus_name_of(tstatus_name(t)) == Some(t)
{ lits!("NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "CANCELLED"); }
/// default value type of a property, RFC 5545 section 8.3.2 and the sections of each property
pub open spec fn vt_default(s: Seq<char>) -> Option<ValueType> {
    if s == "CALSCALE"@ { Some(ValueType::Text) } else
    if s == "METHOD"@ { Some(ValueType::Text) } else
    if s == "PRODID"@ { Some(ValueType::Text) } else
    if s == "VERSION"@ { Some(ValueType::Text) } else
    if s == "CATEGORIES"@ { Some(ValueType::Text) } else
    if s == "CLASS"@ { Some(ValueType::Text) } else
    if s == "COMMENT"@ { Some(ValueType::Text) } else
    if s == "DESCRIPTION"@ { Some(ValueType::Text) } else
    if s == "LOCATION"@ { Some(ValueType::Text) } else
    if s == "RESOURCES"@ { Some(ValueType::Text) } else
    if s == "STATUS"@ { Some(ValueType::Text) } else
    if s == "SUMMARY"@ { Some(ValueType::Text) } else
    if s == "TRANSP"@ { Some(ValueType::Text) } else
    if s == "TZID"@ { Some(ValueType::Text) } else
    if s == "TZNAME"@ { Some(ValueType::Text) } else
    if s == "CONTACT"@ { Some(ValueType::Text) } else
    if s == "RELATED-TO"@ { Some(ValueType::Text) } else
    if s == "UID"@ { Some(ValueType::Text) } else
    if s == "ACTION"@ { Some(ValueType::Text) } else
    if s == "REQUEST-STATUS"@ { Some(ValueType::Text) } else
    if s == "ATTACH"@ { Some(ValueType::Uri) } else
    if s == "TZURL"@ { Some(ValueType::Uri) } else
    if s == "URL"@ { Some(ValueType::Uri) } else
    if s == "GEO"@ { Some(ValueType::Float) } else
    if s == "PERCENT-COMPLETE"@ { Some(ValueType::Integer) } else
    if s == "PRIORITY"@ { Some(ValueType::Integer) } else
    if s == "REPEAT"@ { Some(ValueType::Integer) } else
    if s == "SEQUENCE"@ { Some(ValueType::Integer) } else
    if s == "COMPLETED"@ { Some(ValueType::DateTime) } else
    if s == "DTEND"@ { Some(ValueType::DateTime) } else
    if s == "DUE"@ { Some(ValueType::DateTime) } else
    if s == "DTSTART"@ { Some(ValueType::DateTime) } else
    if s == "RECURRENCE-ID"@ { Some(ValueType::DateTime) } else
    if s == "EXDATE"@ { Some(ValueType::DateTime) } else
    if s == "RDATE"@ { Some(ValueType::DateTime) } else
    if s == "CREATED"@ { Some(ValueType::DateTime) } else
    if s == "DTSTAMP"@ { Some(ValueType::DateTime) } else
    if s == "LAST-MODIFIED"@ { Some(ValueType::DateTime) } else
    if s == "DURATION"@ { Some(ValueType::Duration) } else
    if s == "TRIGGER"@ { Some(ValueType::Duration) } else
    if s == "FREEBUSY"@ { Some(ValueType::Period) } else
    if s == "TZOFFSETFROM"@ { Some(ValueType::UtcOffset) } else
    if s == "TZOFFSETTO"@ { Some(ValueType::UtcOffset) } else
    if s == "ATTENDEE"@ { Some(ValueType::CalAddress) } else
    if s == "ORGANIZER"@ { Some(ValueType::CalAddress) } else
    if s == "RRULE"@ { Some(ValueType::Recur) } else
    { None }
}
} // mod lemma_values
