use mozak_runner::decode::decode_instruction;
use crate::refmodel as r;
#[no_mangle]
pub extern "C" fn hx_decode() {
    let (pc, w) = (rsx::u32(), rsx::u32());
    let got = decode_instruction(pc, w);
    match r::decode(pc, w) {
        None => match got {
            Ok(_) => rsx::check(false, 1),
            Err(e) => rsx::check(e.pc == pc && e.instruction == w, 2),
        },
        Some((op, args)) => match got {
            Err(_) => rsx::check(false, 3),
            Ok(i) => {
                rsx::check(i.op == op, 4);
                rsx::check(i.args.rd == args.rd, 5);
                rsx::check(i.args.rs1 == args.rs1, 6);
                rsx::check(i.args.rs2 == args.rs2, 7);
                rsx::check(i.args.imm == args.imm, 8);
                rsx::cover(1);
            }
        },
    }
}
