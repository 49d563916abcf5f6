//! Entry points explored by the symbolic executor, and the native replayer.
pub mod sym;
pub mod bisect;
pub mod clash;
pub mod events;
pub mod hiding;
pub mod gc;
pub mod hooks;
pub mod mv;
pub mod nav;
pub mod wc;
pub mod restack;
pub mod reword;
mod init;
mod submit;
mod sync;
mod merges;
mod select;
mod smartlog;
mod revparse;
pub mod revset;
pub mod roundtrip;
pub mod scene;
pub mod undo;
pub mod visible;
pub mod fake;
pub mod smoke;
pub mod smoke_repo;
pub mod smoke_dag;

macro_rules! entries {
    ($($name:ident => $path:expr),* $(,)?) => {
        $(
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $name() {
                ($path)()
            }
        )*
        static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}

entries! {
    h_smoke_threads => smoke::threads,
    h_smoke_dag => smoke_dag::memdag,
    h_smoke_repo => smoke_repo::repo,
    h_smoke_spawn => smoke_repo::spawn,
    h_smoke_rayon => smoke::rayon,
    h_log_roundtrip1 => events::roundtrip::<1>,
    h_log_order2 => events::order::<2>,
    h_log_roundtrip2 => events::roundtrip::<2>,
    h_log_roundtrip3 => events::roundtrip::<3>,
    h_replay_status3 => events::status::<3>,
    h_replay_status4 => events::status::<4>,
    h_replay_cursor5 => events::cursor::<5>,
    h_replay_cursor7 => events::cursor::<7>,
    h_replay_refs2 => events::refs_at::<2>,
    h_replay_refs3 => events::refs_at::<3>,
    h_visible_tree3 => visible::sets_tree::<3>,
    h_visible_tree4 => visible::sets_tree::<4>,
    h_visible_dag3 => visible::sets_dag::<3>,
    h_visible_dag4 => visible::sets_dag::<4>,
    h_undo1 => undo::refs_and_commits::<1>,
    h_undo2 => undo::refs_and_commits::<2>,
    h_undo_last1 => undo::last_command::<1>,
    h_undo_last2 => undo::last_command::<2>,
    h_hide3 => (|| hiding::run(3)),
    h_hide4 => (|| hiding::run(4)),
    h_undo_move3 => (|| roundtrip::run(3, roundtrip::Cmd::Move)),
    h_undo_move4 => (|| roundtrip::run(4, roundtrip::Cmd::Move)),
    h_undo_fixup4 => (|| roundtrip::run(4, roundtrip::Cmd::Fixup)),
    h_undo_hide3 => (|| roundtrip::run(3, roundtrip::Cmd::Hide)),
    h_undo_hide4 => (|| roundtrip::run(4, roundtrip::Cmd::Hide)),
    h_rev_unary3 => (|| revset::unary(3)),
    h_rev_unary4 => (|| revset::unary(4)),
    h_rev_nullary3 => (|| revset::nullary(3)),
    h_rev_nullary4 => (|| revset::nullary(4)),
    h_rev_binary3 => (|| revset::binary(3, false)),
    h_rev_binary4 => (|| revset::binary(4, true)),
    h_rev_text => (|| revset::text()),
    h_rev_current4 => (|| revset::current(4, 2)),
    h_snap1 => (|| wc::snapshot(&["a"], false, true, true)),
    h_snap1c => (|| wc::snapshot(&["a"], true, false, false)),
    h_snap2 => (|| wc::snapshot(&["a", "d/b"], false, false, false)),
    h_snap2c => (|| wc::snapshot(&["a", "d/b"], true, false, false)),
    h_snap2x => (|| wc::snapshot(&["a", "d/b"], false, true, true)),
    h_nav3 => (|| nav::traverse(3)),
    h_nav4 => (|| nav::traverse(4)),
    h_switch3 => (|| nav::switch(3)),
    h_switch4 => (|| nav::switch(4)),
    h_parse_op2 => (|| revparse::operators(2, false)),
    h_parse_op2sp => (|| revparse::operators(2, true)),
    h_parse_op3 => (|| revparse::operators(3, false)),
    h_parse_quoted2 => (|| revparse::quoted(2)),
    h_parse_quoted3 => (|| revparse::quoted(3)),
    h_parse_names2 => (|| revparse::names(2)),
    h_parse_names3 => (|| revparse::names(3)),
    h_restack_drop3 => (|| restack::dropped(3)),
    h_restack_drop4 => (|| restack::dropped(4)),
    h_gc3 => (|| gc::run(3)),
    h_gc4 => (|| gc::run(4)),
    h_hook_reftx1 => (|| hooks::transaction(1)),
    h_hook_reftx2 => (|| hooks::transaction(2)),
    h_hook_rebase3 => (|| hooks::rebase(3)),
    h_hook_rebase4 => (|| hooks::rebase(4)),
    h_restack3 => (|| restack::run(3, 1, true)),
    h_restack3x2 => (|| restack::run(3, 2, false)),
    h_restack4 => (|| restack::run(4, 1, false)),
    h_clash3 => (|| clash::run(3, 3, true)),
    h_clash4 => (|| clash::run(4, 2, false)),
    h_clash4full => (|| clash::run(4, 3, true)),
    h_move_src3 => (|| mv::run(mv::scene_full(3), mv::What::Source, false, false)),
    h_move_src4 => (|| mv::run(mv::scene_lite(4), mv::What::Source, false, false)),
    h_move_base3 => (|| mv::run(mv::scene_full(3), mv::What::Base, false, false)),
    h_move_base4 => (|| mv::run(mv::scene_lite(4), mv::What::Base, false, false)),
    h_move_exact3 => (|| mv::run(mv::scene_full(3), mv::What::Exact, false, false)),
    h_move_exact4 => (|| mv::run(mv::scene_lite(4), mv::What::Exact, false, false)),
    h_move_hidden4 => (|| mv::hidden(4, mv::What::Source, false, false)),
    h_move_exact_hidden4 => (|| mv::hidden(4, mv::What::Exact, false, false)),
    h_move_insert_hidden4 => (|| mv::hidden(4, mv::What::Source, true, false)),
    h_move_fixup_hidden4 => (|| mv::hidden(4, mv::What::Source, false, true)),
    h_disk_src3 => (|| mv::on_disk(|| mv::run(mv::scene_full(3), mv::What::Source, false, false))),
    h_disk_lite3 => (|| mv::on_disk(|| mv::run(mv::scene_lite(3), mv::What::Source, false, false))),
    h_disk_insert3 => (|| mv::on_disk(|| mv::run(mv::scene_lite(3), mv::What::Source, true, false))),
    h_disk_exact3 => (|| mv::on_disk(|| mv::run(mv::scene_lite(3), mv::What::Exact, false, false))),
    h_disk_src4 => (|| mv::on_disk(|| mv::run(mv::scene_lite(4), mv::What::Source, false, false))),
    h_disk_exact4 => (|| mv::on_disk(|| mv::run(mv::scene_lite(4), mv::What::Exact, false, false))),
    h_disk_clash3 => (|| mv::on_disk(|| clash::run(3, 3, true))),
    h_disk_resolve3 => (|| clash::resolving(|| clash::run(3, 3, true))),
    h_disk_resolve4 => (|| clash::resolving(|| clash::run(4, 3, false))),
    h_disk_clash4 => (|| mv::on_disk(|| clash::run(4, 2, false))),
    h_disk_changes1 => (|| wc::carry_disk(&["a"])),
    h_disk_changes2 => (|| wc::carry_disk(&["a", "b"])),
    h_disk_merge4 => (|| mv::on_disk(|| merges::run(4, 0, false))),
    h_disk_merge4_above => (|| mv::on_disk(|| merges::run(4, 1, true))),
    h_merge4_either => (|| mv::either(|| merges::run(4, 0, false))),
    h_either_clash3 => (|| mv::either(|| clash::run(3, 3, false))),
    h_submit_one3 => (|| submit::run(3, &[submit::Where::Local, submit::Where::Tracked, submit::Where::Gone, submit::Where::Theirs], &[], 1)),
    h_submit_pair3x => (|| submit::run(3, submit::ALL, submit::ALL, 2)),
    h_submit_remote3 => (|| submit::run(3, &[submit::Where::Local, submit::Where::Tracked], &[], 3)),
    h_sync3 => (|| sync::run(3, false)),
    h_sync4 => (|| sync::run(4, false)),
    h_sync_pull3 => (|| sync::run(3, true)),
    h_sync_pull4 => (|| sync::run(4, true)),
    h_sync_clash4 => (|| sync::clash(4, 3)),
    h_record1 => (|| wc::record(&["a"], &[wc::Recording::Plain, wc::Recording::Create, wc::Recording::Detach], false, 1)),
    h_record_torn1 => (|| wc::record(&["a"], &[wc::Recording::Plain], true, 1)),
    h_record_kids1 => (|| wc::record(&["a"], &[wc::Recording::Plain, wc::Recording::Create, wc::Recording::Detach], false, 5)),
    h_record_stash1 => (|| wc::record(&["a"], &[wc::Recording::Stash], false, 5)),
    h_select3 => (|| select::select_changes(&[("a", &[0, 1, 2], 3)])),
    h_select4 => (|| select::select_changes(&[("a", &[0], 4)])),
    h_select_pair => (|| select::select_changes(&[("a", &[1, 2], 0), ("b", &[0], 1)])),
    h_select_pair2 => (|| select::select_changes(&[("a", &[0, 1, 2], 2), ("b", &[0, 1, 2], 2)])),
    h_record2 => (|| wc::record(&["a", "b"], &[wc::Recording::Plain, wc::Recording::Detach], false, 1)),
    h_record_stash2 => (|| wc::record(&["a", "b"], &[wc::Recording::Stash], false, 1)),
    h_disk_clash_pair => (|| mv::on_disk(|| clash::pair())),
    h_clash_pair => (|| clash::pair()),
    h_carry1 => (|| wc::carry(&["a"], &[wc::Going::Switch, wc::Going::Prev], true, true, false)),
    h_carry_move1 => (|| wc::carry(&["a"], &[wc::Going::Move, wc::Going::Reword], true, true, false)),
    h_carry_undo1 => (|| wc::carry(&["a"], &[wc::Going::Undo], false, true, false)),
    h_carry1x => (|| wc::carry(&["a"], &[wc::Going::Switch, wc::Going::Prev, wc::Going::Move, wc::Going::Reword], true, true, true)),
    h_carry_undo1x => (|| wc::carry(&["a"], &[wc::Going::Undo], false, true, true)),
    h_init_hooks3 => (|| init::hooks(3, 1)),
    h_init_hooks2x2 => (|| init::hooks(2, 2)),
    h_init_hooks4x2 => (|| init::hooks(4, 2)),
    h_init_config1 => (|| init::config(1)),
    h_init_config3 => (|| init::config(3)),
    h_reword3 => (|| reword::run(3, 0)),
    h_reword4 => (|| reword::run(4, 0)),
    h_reword_text => (|| reword::run(2, 4)),
    h_reword_bulk1 => (|| reword::bulk(1, 3)),
    h_reword_bulk2 => (|| reword::bulk(2, 3)),
    h_reword_bulk3 => (|| reword::bulk(3, 4)),
    h_smartlog3 => (|| smartlog::command(3, false)),
    h_smartlog4 => (|| smartlog::command(4, false)),
    h_smartlog_dag3 => (|| smartlog::command(3, true)),
    h_smartlog_graph3 => (|| smartlog::graph(scene::Graph::any_dag(3), false, true)),
    h_smartlog_exact3 => (|| smartlog::graph(scene::Graph::any_dag(3), true, false)),
    h_smartlog_graph4 => (|| smartlog::graph(scene::Graph::any_dag(4), false, false)),
    h_smartlog_exact4 => (|| smartlog::graph(scene::Graph::any_dag(4), true, false)),
    h_amend1 => (|| wc::amend(&["a"], true, true, 1, false)),
    h_amend1k => (|| wc::amend(&["a"], false, false, 3, true)),
    h_amend2 => (|| wc::amend(&["a", "d/b"], false, false, 1, true)),
    h_amend1x => (|| wc::amend(&["a"], true, true, 3, true)),
    h_move_insert3 => (|| mv::run(mv::scene_full(3), mv::What::Source, true, false)),
    h_move_insert4 => (|| mv::run(mv::scene_lite(4), mv::What::Source, true, false)),
    h_move_exact_insert4 => (|| mv::run(mv::scene_lite(4), mv::What::Exact, true, false)),
    h_move_fixup3 => (|| mv::run(mv::scene_full(3), mv::What::Source, false, true)),
    h_move_fixup4 => (|| mv::run(mv::scene_lite(4), mv::What::Source, false, true)),
    h_move_exact_fixup3 => (|| mv::run(mv::scene_full(3), mv::What::Exact, false, true)),
    h_move_exact_fixup4 => (|| mv::run(mv::scene_lite(4), mv::What::Exact, false, true)),
    h_bisect_protocol3 => bisect::protocol::<3>,
    h_bisect_protocol4 => bisect::protocol::<4>,
    h_bisect_run4 => bisect::run::<4>,
    h_bisect_run5 => bisect::run::<5>,
    h_bisect_contradict3 => bisect::contradictions::<3>,
    h_bisect_contradict4 => bisect::contradictions::<4>,
    h_bisect_chain7 => bisect::chain7,
    h_bisect_chain15 => bisect::chain15,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let name = args.get(1).expect("entry");
    sym::load_values(args.get(2).expect("values"));
    std::panic::set_hook(Box::new(|info| {
        println!("REPLAY: panic: {info}");
        std::process::exit(sym::EXIT_PANIC);
    }));
    let f = ENTRIES
        .iter()
        .find(|(n, _)| n == name)
        .expect("known entry")
        .1;
    f();
    println!("REPLAY: completed");
}
