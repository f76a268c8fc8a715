fn main() {
    let mut attr = imagequant::new();
    attr.set_max_colors(4).unwrap();
    let px: Vec<_> = (0..64 * 64u32).map(|i| imagequant::RGBA::new((i % 64 * 3) as u8, (i / 64 * 3) as u8, 40, 255)).collect();
    let mut img = attr.new_image(px, 64, 64, 0.).unwrap();
    let fixed = imagequant::RGBA::new(255, 0, 255, 255);
    img.add_fixed_color(fixed).unwrap();
    for _ in 0..2 {
        let mut res = attr.quantize(&mut img).unwrap();
        assert!(res.palette().contains(&fixed), "fixed colour lost");
    }
}
