pub mod alg;
#[cfg(feature = "g_cli")]
pub mod cli;
pub mod cube;
pub mod data;
pub mod eval;
#[cfg(feature = "g_f2l")]
pub mod f2l;
#[cfg(feature = "g_gen")]
pub mod generate;
pub mod memory;
pub mod misc;
#[cfg(any(feature = "g_cli", feature = "g_f2l"))]
pub mod process;

use crate::ctx::Ctx;

// The features only keep builds short: each check compiles the workloads it runs.

/// Runs the workload of one property. `false`: no such property.
pub fn run(ctx: &mut Ctx) -> bool {
    match ctx.prop.clone().as_str() {
        #[cfg(feature = "g_alg")]
        "A01" => alg::parser_is_total(ctx),
        #[cfg(feature = "g_alg")]
        "A02" => alg::language_and_value(ctx),
        #[cfg(feature = "g_alg")]
        "A03" => alg::round_trip(ctx),
        #[cfg(feature = "g_alg")]
        "A04" => alg::canonical_text(ctx),
        #[cfg(feature = "g_alg")]
        "A05" => alg::inversion(ctx),
        #[cfg(feature = "g_alg")]
        "A06" => alg::builder(ctx),
        #[cfg(feature = "g_alg")]
        "A07" => alg::json(ctx),
        #[cfg(feature = "g_alg")]
        "A08" => alg::equality(ctx),
        #[cfg(feature = "g_eval")]
        "K01" => eval::evaluation(ctx),
        #[cfg(feature = "g_eval")]
        "K02" => eval::resolution(ctx),
        #[cfg(feature = "g_eval")]
        "K03" => eval::laws(ctx),
        #[cfg(feature = "g_eval")]
        "K04" => eval::repetition(ctx),
        #[cfg(feature = "g_data")]
        "K05" => data::orientation_mod(ctx),
        #[cfg(feature = "g_data")]
        "K06" => data::data_round_trip(ctx),
        #[cfg(feature = "g_data")]
        "K07" => data::accessors(ctx),
        #[cfg(feature = "g_data")]
        "K08" => data::buffers(ctx),
        #[cfg(feature = "g_data")]
        "K09" => data::derived_validation(ctx),
        #[cfg(feature = "g_data")]
        "K10" => data::malformed(ctx),
        #[cfg(feature = "g_memory")]
        "K11" => memory::safety(ctx),
        #[cfg(feature = "g_memory")]
        "K12" => memory::threads(ctx),
        #[cfg(feature = "g_cube")]
        "K13" => cube::geometry(ctx),
        #[cfg(feature = "g_data")]
        "K14" => data::definitions(ctx),
        #[cfg(feature = "g_misc")]
        "K15" => misc::cost(ctx),
        #[cfg(feature = "g_misc")]
        "K16" => misc::history(ctx),
        #[cfg(feature = "g_misc")]
        "K17" => misc::errors(ctx),
        #[cfg(feature = "g_cli")]
        "T01" => cli::cli(ctx),
        #[cfg(feature = "g_f2l")]
        "T04" => f2l::f2l(ctx),
        _ => return false,
    }
    true
}
