mod sx;
#[macro_use]
mod sym;
mod rt;
mod gen_enums;
mod gen_entities;
mod gen_objects;
mod gen_tables;
mod gen_header;
mod gen_flags;
mod flags;
mod dxb;
mod mk;
mod gen_conv;
mod gen_types;
mod conv;
mod dates;
mod child;
mod xd;
mod blk;
mod ctx;
mod txt;
mod wf;
mod unk;
mod ops;
mod io;
mod strs;
mod nums;
mod smoke;
type Entry = (&'static str, extern "C" fn(u32));
#[used]
static TABLE: &[Entry] = &[
    ("vh_smoke", smoke::vh_smoke),
    ("vh_smoke2", smoke::vh_smoke2),
    ("vh_entity", rt::vh_entity),
    ("vh_object", rt::vh_object),
    ("vh_table", rt::vh_table),
    ("vh_header", rt::vh_header),
    ("vh_flags", flags::vh_flags),
    ("vh_conv", conv::vh_conv),
    ("vh_dates", dates::vh_dates),
    ("vh_dxb_rt", dxb::vh_dxb_rt),
    ("vh_dxb_any", dxb::vh_dxb_any),
    ("vh_child", child::vh_child),
    ("vh_xd", xd::vh_xd),
    ("vh_blk", blk::vh_blk),
    ("vh_any", ctx::vh_any),
    ("vh_bin_raw", ctx::vh_bin_raw),
    ("vh_txt", txt::vh_txt),
    ("vh_txt_raw", txt::vh_txt_raw),
    ("vh_bad", txt::vh_bad),
    ("vh_wf", wf::vh_wf),
    ("vh_tb", wf::vh_tb),
    ("vh_unk", unk::vh_unk),
    ("vh_ops", ops::vh_ops),
    ("vh_io", io::vh_io),
    ("vh_file", io::vh_file),
    ("vh_str", strs::vh_str),
    ("vh_num", nums::vh_num),
];
extern "C" { fn sx_load(p: *const std::ffi::c_char); fn sx_failed() -> i32; fn sx_fs(a: usize, b: usize, c: usize, d: usize); }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let case: u32 = a[2].parse().unwrap();
    let p = std::ffi::CString::new(a[3].clone()).unwrap();
    unsafe { sx_load(p.as_ptr()) };
    let t = std::hint::black_box(&io::FS);
    unsafe { sx_fs(t.0 as usize, t.1 as usize, t.2 as usize, t.3 as usize) };
    for (n, f) in std::hint::black_box(TABLE) {
        if *n == a[1] {
            f(case);
            if unsafe { sx_failed() } > 0 { std::process::exit(3); }
            println!("SX-DONE");
            return;
        }
    }
    eprintln!("no entry");
    std::process::exit(78);
}
