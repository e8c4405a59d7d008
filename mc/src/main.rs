mod asmref;
mod conform;
mod fw;
mod macho;
mod props;
mod sys;
mod x86;

use fw::Tier;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let all = props::all();
    let usage = || -> ! {
        eprintln!("usage: mc check <ID> <quick|thorough> | mc replay <ID> <tier> <case> | mc list");
        std::process::exit(2)
    };
    let find = |id: &str| all.iter().find(|p| p.id == id).unwrap_or_else(|| usage());
    let tier = |t: &str| match t {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    };
    let a: Vec<&str> = args.iter().skip(1).map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["list"] => all.iter().for_each(|p| println!("{} {}", p.id, p.level)),
        ["design"] => all.iter().for_each(|p| {
            let s = |x: &str| format!("{x:?}").replace("\\'", "'");
            let a: Vec<String> = p.assumptions.iter().map(|x| s(x)).collect();
            println!("{{\"id\":{},\"quick\":{},\"thorough\":{},\"assumptions\":[{}]}}", s(p.id), s(&(p.bounds)(Tier::Quick)), s(&(p.bounds)(Tier::Thorough)), a.join(","));
        }),
        ["check", id, t] => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
            let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
            let cap = std::env::var("MC_WALL_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier(t) {
                Tier::Quick => 780,
                Tier::Thorough => 4 * 3600,
            });
            std::process::exit(fw::explore(find(id), tier(t), seed, verif.as_ref(), cap));
        }
        ["conform", "programs", depth] => conform::programs(depth.parse().unwrap_or_else(|_| usage())),
        ["conform", "links", depth, lld] => conform::links(depth.parse().unwrap_or_else(|_| usage()), lld),
        ["conform", "encodings"] => conform::encodings(),
        ["replay", id, t, idx] => {
            std::process::exit(fw::replay(find(id), tier(t), idx.parse().unwrap_or_else(|_| usage())));
        }
        _ => usage(),
    }
}
