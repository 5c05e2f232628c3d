//! harness ID TIER SEED OUT [scenario files]: drives the real code for one property and records what it does in OUT.
mod anim;
mod bulk;
mod compose;
mod data;
mod docs;
mod dump;
mod files;
mod hostile;
mod gen;
mod json;
mod low;
mod matl;
mod mesh;
mod model;
mod obs;
mod rng;
mod saving;
mod usual;
mod sch;
mod shader;
mod skel;
mod stable;
mod streams;
mod text;
mod transform;
mod tree;
use rng::Rng;

#[global_allocator]
static A: obs::Counting = obs::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (id, tier, seed, path) = (a[1].as_str(), a[2].as_str(), a[3].parse::<u64>().unwrap(), a[4].as_str());
    obs::quiet();
    let cur = format!("{path}.cur");
    obs::watch(&cur, if tier == "thorough" { 900 } else { 100 });
    obs::guarded(&cur.clone(), || record(&a, id, tier, seed, path, cur));
}
fn record(a: &[String], id: &str, tier: &str, seed: u64, path: &str, cur: String) {
    let mut out = obs::Out::new(path);
    let mut r = Rng::new(seed, id);
    let th = tier == "thorough";
    let spec = || sch::Spec::load(a[5..].iter().find(|p| p.ends_with("MC_Schema.gen")).expect("schema"));
    let scen = |m: &str| -> Vec<serde_json::Value> {
        let m = format!("{m}.gen");
        match a[5..].iter().find(|p| p.ends_with(&m)) {
            Some(p) => std::fs::read_to_string(p).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect(),
            None => vec![],
        }
    };
    match id {
        "L01" => low::l01_l02(&mut out, &mut r, &scen("MC_Formats"), if th { 1500 } else { 100 }, "l01"),
        "L02" => low::l01_l02(&mut out, &mut r, &scen("MC_Formats"), if th { 1500 } else { 100 }, "l02"),
        "L03" => low::l03(&mut out, &mut r, &spec(), if th { 1500 } else { 100 }),
        "L04" => low::l04(&mut out, &mut r, &spec(), if th { 1500 } else { 100 }, &cur),
        "L05" => low::l05(&mut out, &mut r, if th { 500 } else { 30 }, &scen("MC_Dispatch")),
        "L06" => compose::l06(&mut out, &mut r, if th { 600 } else { 40 }, &scen("MC_Layout")),
        "L07" => low::l07(&mut out, &mut r, if th { 5000 } else { 500 }, &scen("MC_Tables")),
        "L08" => files::l08(&mut out, &mut r, &scen("MC_Files"), 1),
        "L11" => streams::l11(&mut out, &mut r, &scen("MC_Streams"), if th { 120 } else { 12 }, if th { 80 } else { 40 }),
        "L09" => json::l09(&mut out, &mut r, &scen("MC_Convert"), if th { 6 } else { 2 }, if th { 40000 } else { 1000 }),
        "D01" => mesh::d01_05(&mut out, &mut r, "d01", &scen("MC_Mesh"), if th { 20000 } else { 1500 }),
        "D02" => mesh::d02(&mut out, &mut r, &scen("MC_MeshErr"), if th { 60000 } else { 5000 }),
        "D03" => mesh::d01_05(&mut out, &mut r, "d03", &scen("MC_Mesh"), if th { 20000 } else { 1500 }),
        "D04" => mesh::d01_05(&mut out, &mut r, "d04", &scen("MC_Mesh"), if th { 30000 } else { 2500 }),
        "D05" => mesh::d01_05(&mut out, &mut r, "d05", &scen("MC_Mesh"), if th { 20000 } else { 1500 }),
        "D19" => mesh::d19(&mut out, &mut r, if th { 60000 } else { 5000 }, &cur),
        "D10" => skel::d10(&mut out, &mut r, &scen("MC_Skel"), if th { 20000 } else { 2500 }),
        "D06" => anim::saving(&mut out, &mut r, "d06", &scen("MC_Anim"), if th { 20000 } else { 1500 }),
        "D07" => anim::saving(&mut out, &mut r, "d07", &scen("MC_Anim"), if th { 20000 } else { 1500 }),
        "D11" => matl::d11(&mut out, &mut r, &scen("MC_Matl"), if th { 20000 } else { 1500 }),
        "D12" => model::d12(&mut out, &mut r, &scen("MC_Model"), if th { 60000 } else { 5000 }),
        "D13" => model::d13(&mut out, &mut r, &scen("MC_Adjacent"), if th { 30000 } else { 1500 }),
        "D14" => model::d14(&mut out, &mut r, &scen("MC_Extended"), if th { 30000 } else { 2000 }),
        "D18" => shader::d18(&mut out, &mut r, &scen("MC_Shader"), if th { 12000 } else { 700 }, &cur),
        "D15" => hostile::d15(&mut out, &mut r, &scen("MC_Hostile"), if th { 12 } else { 1 }, if th { 6000 } else { 400 }, &cur),
        "D16" => transform::d16(&mut out, &mut r, &scen("MC_Transform"), if th { 15000 } else { 1000 }),
        "D17" => {
            let n = if th { 20000 } else { 2000 };
            let other = format!("{path}.child");
            let again = || {
                let me = std::env::current_exe().unwrap();
                let done = std::process::Command::new(me).args(["D17-child", tier, &a[3], &other]).status().unwrap();
                assert!(done.success());
                let text = std::fs::read_to_string(&other).unwrap();
                std::fs::remove_file(&other).unwrap();
                text.lines().map(|l| serde_json::from_str(l).unwrap()).collect()
            };
            stable::d17(&mut out, &mut r, &scen("MC_Stable"), n, again)
        }
        "D17-child" => stable::child(&mut out, &mut Rng::new(seed, "D17"), if th { 20000 } else { 2000 }),
        "L10" => dump::l10(&mut out, &mut r, &spec(), &scen("MC_Dump"), if th { 4000 } else { 600 }, if th { 1500 } else { 60 }),
        "D20" => text::d20(&mut out, &mut r, &scen("MC_Text"), &scen("MC_Formats"), if th { 6000 } else { 600 }),
        "L12" => docs::l12(&mut out, &mut r, &scen("MC_Docs"), if th { 40000 } else { 6000 }),
        "D21" => docs::d21(&mut out, &mut r, &scen("MC_Docs"), if th { 60000 } else { 6000 }),
        "D22" => saving::d22(&mut out, &mut r, &scen("MC_Saving"), if th { 80000 } else { 10000 }),
        "D23" => usual::d23(&mut out, &mut r, &scen("MC_Usual"), if th { 40000 } else { 4000 }),
        "D08" => anim::d08(&mut out, &mut r, &scen("MC_AnimBits"), if th { 40000 } else { 3000 }, &cur),
        "D09" => {
            anim::d09(&mut out, &mut r, &scen("MC_AnimErr"), if th { 40000 } else { 3000 });
            anim::old_files(&mut out, &mut r, if th { 20000 } else { 1500 }, &cur);
        }
        _ => panic!("unknown property {id}"),
    }
    for _ in 0..if th { 6 } else { 1 } {
        match id {
            "L01" => bulk::l01(&mut out, &mut r),
            "L07" => bulk::l07(&mut out, &mut r),
            "D01" => bulk::d01(&mut out, &mut r),
            "D03" => bulk::d03(&mut out, &mut r),
            "D04" => bulk::d04(&mut out, &mut r),
            "D05" => bulk::d05(&mut out, &mut r),
            "D06" => bulk::anims(&mut out, &mut r, "d06"),
            "D07" => bulk::anims(&mut out, &mut r, "d07"),
            "D09" => bulk::d09(&mut out, &mut r),
            "D10" => bulk::d10(&mut out, &mut r),
            "D11" => bulk::d11(&mut out, &mut r),
            "D12" => bulk::d12(&mut out, &mut r),
            "D13" => bulk::d13(&mut out, &mut r),
            "D14" => bulk::d14(&mut out, &mut r),
            "D16" => bulk::d16(&mut out, &mut r),
            _ => (),
        }
    }
    out.done();
}
