#![allow(clippy::too_many_arguments, clippy::type_complexity)]
mod alloc;
mod conv;
mod r#gen;
mod p_app;
mod p_conf;
mod p_time;
mod p_leak;
mod p_life;
mod p_mix;
mod p_handle;
mod p_chan;
mod p_codec;
mod p_engine;
mod p_conn;
mod p_hostile;
mod p_idle;
mod p_pair;
mod p_router;
mod raw;
mod refcodec;
mod runner;
mod schema;
mod sut;
mod wire;
mod world;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn props() -> Vec<runner::Prop> {
    let mut v = Vec::new();
    v.extend(p_codec::props());
    v.extend(p_engine::props());
    v.extend(p_conn::props());
    v.extend(p_router::props());
    v.extend(p_chan::props());
    v.extend(p_hostile::props());
    v.extend(p_pair::props());
    v.extend(p_idle::props());
    v.extend(p_app::props());
    v.extend(p_conf::props());
    v.extend(p_time::props());
    v.extend(p_handle::props());
    v.extend(p_life::props());
    v.extend(p_leak::props());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let r = match args.first().map(|s| s.as_str()) {
        Some("check") => runner::check_main(props(), &args),
        Some("shard") => runner::shard_main(props(), &args),
        Some("replay") => runner::replay_main(props(), &args[1]),
        Some("list") => {
            for p in props() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: amqpv check --prop ID [--tier quick|thorough] | replay FILE | list");
            2
        }
    };
    std::process::exit(r);
}
