mod sym;
mod c09;
mod world;
mod drive;
mod hist;
mod mon;
mod probe;
mod c22;
mod c15;
mod c08;
mod race;
mod diff;
mod c14;
mod c18;
mod c16;
mod c17;
mod c10;
mod c01;
mod c11;
mod c12;
mod c20;
mod c21;

macro_rules! harnesses {
    ($($name:ident => $path:path),* $(,)?) => {
        $(#[no_mangle] #[inline(never)] pub extern "C" fn $name() { $path() })*
        fn run(name: &str) -> bool {
            match name {
                $(stringify!($name) => { $name(); true })*
                _ => false,
            }
        }
    };
}

fn c11_any() { c11::arbitrary(4) }
fn c11_anyd() { c11::arbitrary(6) }
fn c11_mut() { c11::mutated(1) }
fn c11_mutd() { c11::mutated(2) }
fn c11_rt() { c11::roundtrip(false) }
fn c11_rtd() { c11::roundtrip(true) }
fn c12_text() { c12::text(4) }

harnesses! {
    h_c09_order => c09::order,
    h_c09_fair => c09::fair,
    h_c09_heights => c09::heights,
    h_c09_fairw => c09::fair_wide,
    h_c09_heightsw => c09::heights_wide,
    h_c09_follows => c09::node_follows,
    h_c09_votes => c09::node_votes_to,
    h_c09_proposes => c09::node_proposes,
    h_c09_rweights => c09::random_weights,
    h_c09_rsum => c09::random_sum,
    h_c09_rwide => c09::random_wide,
    h_c11_rt => c11_rt,
    h_c11_rtd => c11_rtd,
    h_c11_anyd => c11_anyd,
    h_c11_mutd => c11_mutd,
    h_c11_any => c11_any,
    h_c11_mut => c11_mut,
    h_c12_rt => c12::roundtrip,
    h_c12_long => c12::long,
    h_c12_text => c12_text,
    h_c12_list => c12::text_list,
    h_c20_helper => c20::helper,
    h_c20_sorts => c20::helper_sorts,
    h_c20_received => c20::received,
    h_c20_carried => c20::carried,
    h_c20_built => c20::built,
    h_c01_weights => c01::weights,
    h_c02_sigs => c01::signatures,
    h_c02_polc => c01::lock_proofs,
    h_c02_locked => c01::lock_proofs_locked,
    h_c03_votes => hist::c03_votes,
    h_c03_crash => hist::c03_crash,
    h_c03_leader => hist::c03_leader,
    h_c04_lock => hist::c04_lock,
    h_c04_rounds => hist::c04_rounds,
    h_c05_precommits => hist::c05_precommits,
    h_c05_heights => hist::c05_heights,
    h_c05_leader => hist::c05_leader,
    h_c06_commits => hist::c06_commits,
    h_c06_after => hist::c06_after,
    h_c06_restart => hist::c06_restart,
    h_c07_faults => hist::c07_faults,
    h_c07_restart => hist::c07_restart,
    h_c07_leader => hist::c07_leader,
    h_c08_history => hist::c08_history,
    h_c08_lead => hist::c08_lead,
    h_c13_order => hist::c13_order,
    h_c13_heights => hist::c13_heights,
    h_c15_rounds => hist::c15_rounds,
    h_c03_deep => hist::c03_deep,
    h_c04_deep => hist::c04_deep,
    h_c05_deep => hist::c05_deep,
    h_c06_deep => hist::c06_deep,
    h_c06_afterd => hist::c06_afterd,
    h_c07_deep => hist::c07_deep,
    h_c13_deep => hist::c13_deep,
    h_c15_deep => hist::c15_deep,
    h_c10_weighted => c10::weighted,
    h_c10_flaws => c10::flaws,
    h_c10_early => c10::early,
    h_c10_weightedd => c10::weighted_deep,
    h_c14_durations => c14::durations,
    h_c14_wide => c14::wide,
    h_c14_settings => c14::settings,
    h_c14_committed => c14::committed,
    h_c14_past => c14::past,
    h_c19_clean => diff::c19_clean,
    h_c19_plain => diff::c19_plain,
    h_c19_old => diff::c19_old,
    h_c19_deep => diff::c19_deep,
    h_c19_deep2 => diff::c19_deep2,
    h_c19_fails => diff::c19_fails,
    h_c19_lower => diff::c19_lower,
    h_c19_lowerd => diff::c19_lowerd,
    h_c19_commit => diff::c19_commit,
    h_c18_silent => c18::c18_silent,
    h_c18_silentd => c18::c18_silentd,
    h_c18_again => c18::c18_again,
    h_c18_againd => c18::c18_againd,
    h_c18_leader => c18::c18_leader,
    h_c17_kept => c17::c17_kept,
    h_c17_pairs => c17::c17_pairs,
    h_c17_before => c17::c17_before,
    h_c17_befored => c17::c17_befored,
    h_c17_bad => c17::c17_bad,
    h_c17_badd => c17::c17_badd,
    h_c17_gap => c17::c17_gap,
    h_c17_far => c17::c17_far,
    h_c17_rounds => c17::c17_rounds,
    h_c17_lead => c17::c17_lead,
    h_c16_messages => c16::c16_messages,
    h_c16_chokes => c16::c16_chokes,
    h_c16_messagesd => c16::c16_messagesd,
    h_c16_ordinary => c16::c16_ordinary,
    h_c16_status => c16::c16_status,
    h_c16_statusd => c16::c16_statusd,
    h_c16_stop => c16::c16_stop,
    h_c16_alld => c16::c16_alld,
    h_c16_twod => c16::c16_twod,
    h_c16_ordinaryd => c16::c16_ordinaryd,
    h_c03_race => race::c03_race,
    h_c03_raced => race::c03_raced,
    h_c04_race => race::c04_race,
    h_c04_raced => race::c04_raced,
    h_c05_race => race::c05_race,
    h_c05_raced => race::c05_raced,
    h_c06_race => race::c06_race,
    h_c06_raced => race::c06_raced,
    h_c07_race => race::c07_race,
    h_c07_raced => race::c07_raced,
    h_c08_race => race::c08_race,
    h_c08_raced => race::c08_raced,
    h_c13_race => race::c13_race,
    h_c13_raced => race::c13_raced,
    h_c15_race => race::c15_race,
    h_c15_raced => race::c15_raced,
    h_c03_slow => race::c03_slow,
    h_c07_slow => race::c07_slow,
    h_c13_slow => race::c13_slow,
    h_c08_inputs => c08::c08_inputs,
    h_c08_next => c08::c08_next,
    h_c08_inputsd => c08::c08_inputsd,
    h_c15_chokes => c15::c15_chokes,
    h_c15_more => c15::c15_more,
    h_c15_chokesd => c15::c15_chokesd,
    h_c15_aggregated => c15::c15_aggregated,
    h_c15_aggregatedd => c15::c15_aggregatedd,
    h_c15_long => c15::c15_long,
    h_c20_helper_long => c20::helper_long,
    h_c20_received_long => c20::received_long,
    h_c20_built_long => c20::built_long,
    h_c02_replayed => c01::replayed,
    h_c15_replayed => c15::c15_replayed,
    h_c09_big => c09::big,
    h_c19_weights => diff::c19_weights,
    h_c21_good => c21::c21_good,
    h_c21_orders => c21::c21_orders,
    h_c21_bad => c21::c21_bad,
    h_c21_goodd => c21::c21_goodd,
    h_c21_badd => c21::c21_badd,
    h_c21_heights => c21::c21_heights,
    h_c21_heightsd => c21::c21_heightsd,
    h_c19_race => diff::c19_race,
    h_c19_mixed => diff::c19_mixed,
    h_c06_contents => hist::c06_contents,
    h_c21_late => c21::c21_late,
    h_c22_sent => c22::c22_sent,
    h_c22_deep => c22::c22_deep,
    h_c22_crash => c22::c22_crash,
    h_c22_leader => c22::c22_leader,
    h_c22_followed => c22::c22_followed,
    h_probe => probe::flow,

}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 {
        sym::load_replay(&a[2]);
    }
    std::panic::set_hook(Box::new(|info| {
        println!("PANICKED {}", info);
        std::process::exit(11);
    }));
    if !run(&a[1]) {
        println!("unknown harness");
        std::process::exit(3);
    }
    println!("REPLAY-FINISHED");
}
