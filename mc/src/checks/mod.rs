#[cfg(feature = "exact")]
pub mod exact;
#[cfg(any(feature = "exact", feature = "misc"))]
pub mod coarse;
pub mod gram;
#[cfg(feature = "misc")]
pub mod misc;
#[cfg(feature = "stream")]
pub mod stream;

use crate::explore::Part;

pub fn parts(id: &str, thorough: bool) -> Vec<Part<'static>> {
    match id {
        #[cfg(feature = "stream")]
        "C01" => stream::c01(thorough),
        #[cfg(feature = "stream")]
        "C02" => stream::c02(thorough),
        #[cfg(feature = "stream")]
        "C03" => stream::c03(thorough),
        "C04" => gram::c04(thorough),
        "C05" => gram::c05(thorough),
        #[cfg(feature = "exact")]
        "C06" => exact::c06(thorough),
        #[cfg(feature = "exact")]
        "C07" => exact::c07(thorough),
        #[cfg(feature = "exact")]
        "C08" => exact::c08(thorough),
        #[cfg(feature = "exact")]
        "C09" => exact::c09(thorough),
        #[cfg(feature = "exact")]
        "C10" => exact::c10(thorough),
        #[cfg(feature = "exact")]
        "C12" => exact::c12(thorough),
        #[cfg(feature = "exact")]
        "C16" => exact::c16(thorough),
        "C11" => gram::c11(thorough),
        "C19" => gram::c19(thorough),
        #[cfg(feature = "misc")]
        "C13" => misc::c13(thorough),
        #[cfg(feature = "misc")]
        "C14" => misc::c14(thorough),
        #[cfg(feature = "misc")]
        "C15" => misc::c15(thorough),
        #[cfg(feature = "misc")]
        "C17" => misc::c17(thorough),
        #[cfg(feature = "misc")]
        "C18" => misc::c18(thorough),
        _ => vec![],
    }
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "The bounds of DESIGN.md: nothing is claimed about longer histories, inputs or larger grammars.",
        "Callbacks, sources and location trackers given to the library are deterministic and do not panic.",
        "The reference semantics in mc/src/model.rs is the documented meaning; it is compared with the real code on every case explored.",
    ];
    match id {
        "C01" | "C02" => v.push("Save points are only used on the stream they came from, and not for positions before the oldest one still saved."),
        "C03" => v.push("A bounded amount of slack is allowed for retained tokens (the release policy is not specified, only that it is bounded by the window)."),
        "C04" | "C05" | "C11" | "C19" | "C14" => v.push("Grammars whose repeated items or recursive cycles match nothing are excluded (they do not terminate by design); the model detects and counts them."),
        "C09" => v.push("at_most(0) with an allowed leading separator and minimum above maximum are excluded: their meaning is not documented."),
        "C12" => v.push("Conditional loops whose body and condition never end are excluded (detected by the model)."),
        "C13" => v.push("Kinds of delimiters have distinct left tokens, and no right token is shared between kinds."),
        "C15" => v.push("Left-recursive definitions are excluded (they do not terminate by design); the model detects and counts them."),
        "C18" => v.push("Expected sets are compared as sets; the order in which they are listed is not specified."),
        _ => (),
    }
    v
}
