pub mod access;
pub mod bytes;
pub mod codegen;
pub mod errs;
pub mod frames;
pub mod messages;
pub mod pure;
pub mod routes;
pub mod text;
pub mod values;
pub mod work;
use crate::engine::Prop;

const BIG: usize = 256 << 20;
macro_rules! p {
    ($id:expr, $f:path, $q:expr, $t:expr, $stack:expr, $mutate:expr, [$($n:expr => $s:path),*], $rule:expr) => {
        Prop { id: $id, rule: $rule, quick: $q, thorough: $t, stack: $stack, mutate: $mutate, case: $f, sweeps: &[$(($n, $s)),*] }
    };
}
static ALL: &[Prop] = &[
    p!("C01", values::c01, 480_000, 19_200_000, BIG, 30, ["fixed values" => values::c01_fixed, "boundaries" => values::boundaries, "large" => values::large],
        "a compound value or one of more than three bytes on the wire"),
    p!("C02", frames::c02, 120_000, 4_800_000, BIG, 30, ["each field alone" => frames::c02_fixed], "a frame with a performative"),
    p!("C03", frames::c03, 640_000, 25_600_000, BIG, 30, ["each field alone" => frames::c03_fixed], "any SASL body, or a PLAIN response with some non-empty part"),
    p!("C04", values::c04, 320_000, 12_800_000, BIG, 30, ["boundaries" => values::boundaries, "large" => values::large], "a compound value or one of more than three bytes; a history with at least two edits"),
    p!("C05", values::c05, 400_000, 16_000_000, BIG, 30, ["boundaries" => values::boundaries, "large" => values::large], "a compound value or one of more than three bytes, any frame with a performative, any message"),
    p!("C06", values::c06, 400_000, 16_000_000, BIG, 30, ["every constructor" => values::c06_scalars], "a compound value or one of more than three bytes, any frame with a performative, any message"),
    p!("C07", bytes::c07, 750_000, 30_000_000, 2 << 20, 40, ["all short inputs" => bytes::c07_short, "deep nesting" => bytes::c07_deep], "more than one byte of input"),
    p!("C08", bytes::c08, 480_000, 19_200_000, 2 << 20, 40, ["inflated counts" => bytes::c08_counts, "known:zero-width-array" => bytes::c08_zero_width], "more than four bytes of input"),
    p!("C09", frames::c09, 160_000, 6_400_000, BIG, 30, ["all double cuts" => frames::c09_cuts, "large frames" => frames::c09_large, "exact sizes" => frames::c09_exact, "long streams" => frames::c09_long], "a stream of at least two frames"),
    p!("C10", frames::c10, 300_000, 12_000_000, BIG, 30, ["short lengths" => frames::c10_short, "long streams" => frames::c10_long, "small streams" => frames::c10_small], "a stream with both valid and malformed frames"),
    p!("C11", frames::c11, 480_000, 19_200_000, BIG, 20, ["every byte" => frames::c11_bytes], "any eight bytes"),
    p!("C12", messages::c12, 72_000, 2_880_000, BIG, 30, ["all section subsets" => messages::c12_subsets, "many" => messages::c12_many], "a message of at least two sections"),
    p!("C13", messages::c13, 100_000, 4_000_000, BIG, 30, ["long histories" => messages::c13_many], "a history with at least two edits"),
    p!("C14", messages::c14, 60_000, 2_400_000, BIG, 30, ["large" => messages::c14_large], "a batch, or a transfer with a non-empty payload"),
    p!("C15", values::c15, 480_000, 19_200_000, BIG, 30, ["large" => values::c15_large], "a compound value or one of more than three bytes; any performative"),
    p!("C16", frames::c16, 400_000, 16_000_000, BIG, 30, ["all lists" => frames::c16_lists], "a non-empty field list or a missing mandatory field"),
    p!("C17", frames::c17, 640_000, 25_600_000, BIG, 20, ["enumerations" => frames::c17_all, "descriptors" => frames::c17_descriptors], "any"),
    p!("C18", values::c18, 800_000, 32_000_000, BIG, 30, ["fixed" => values::c18_fixed, "what follows" => values::c18_tails], "an input with at least one compound"),
    p!("C19", text::c19, 180_000, 7_200_000, BIG, 20, ["fixed" => text::c19_fixed], "non-empty texts, compound values, or different values"),
    p!("C20", values::c20, 1_440_000, 57_600_000, BIG, 20, ["fixed" => values::c20_fixed], "any"),
    p!("C21", messages::c21, 150_000, 6_000_000, BIG, 30, [], "a request with a message id"),
    p!("C22", bytes::c22, 240_000, 9_600_000, BIG, 40, [], "bytes that some decoder accepts, more than two of them"),
    p!("C23", values::c23, 200_000, 8_000_000, BIG, 30, ["long streams" => frames::c23_long, "every position" => values::c23_positions], "any"),
    p!("C26", access::c26, 100_000, 4_000_000, BIG, 30, ["fixed" => access::c26_fixed], "a composite with fields, a value other than null, a non-empty text, or a frame with a performative"),
    p!("C27", errs::c27, 400_000, 16_000_000, BIG, 30, ["mandatory fields" => errs::c27_fixed], "any input with one fault"),
    // run by codegen/drive.py: collects cases, decides nothing itself
    p!("C28", pure::c28, 30_000, 2_400_000, BIG, 30, ["thousands of failures" => pure::c28_failures], "at least one input that decodes and one that does not, or a shared value"),
    p!("C29", pure::c29, 120_000, 4_800_000, BIG, 30, ["large and long connections" => pure::c29_large], "a connection of more than two items"),
    p!("C30", pure::c30, 250_000, 16_000_000, BIG, 30, ["each field alone" => pure::c30_fields], "two items of different content"),
    p!("C31", routes::c31, 160_000, 6_400_000, BIG, 30, ["short inputs" => routes::c31_short], "an input of more than two bytes, or a written item"),
    p!("C32", work::c32, 40_000, 1_600_000, BIG, 30, ["large" => work::c32_large, "streams" => work::c32_streams, "known:numbered-texts" => work::c32_texts], "something large or deep, or more than eight bytes of input"),
    p!("C24", crate::twin::c24, 100_000, 2_000_000, BIG, 40, [], "an input some decoder is given"),
    // run by codegen/drive.py in builds whose specification has further types
    p!("C25", codegen::c25, 240_000, 1_200_000, BIG, 30, ["all lists" => codegen::c25_lists, "descriptors and choices" => codegen::c25_fixed],
        "a composite with fields, a member of a group, or a value offered to a choice"),
];
pub fn all() -> &'static [Prop] {
    ALL
}
