fn run(gamma: f64) -> Vec<imagequant::RGBA> {
    let mut attr = imagequant::new();
    attr.set_max_colors(5).unwrap();
    let px: Vec<_> = (0..64 * 64u32).map(|i| { let x = i.wrapping_mul(2654435761); imagequant::RGBA::new((x >> 3) as u8, (i / 64) as u8, (x >> 17) as u8, 255) }).collect();
    let mut img = attr.new_image(px, 64, 64, gamma).unwrap();
    let mut res = attr.quantize(&mut img).unwrap();
    res.palette_vec()
}
fn main() {
    if std::env::args().nth(1).is_some() { println!("{:?}", run(0.9)); return; }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let fresh = String::from_utf8(out.stdout).unwrap();
    run(0.3);
    assert_eq!(fresh.trim(), format!("{:?}", run(0.9)), "earlier work in the process changed the result");
}
