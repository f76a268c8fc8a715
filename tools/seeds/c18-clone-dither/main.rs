fn main() {
    let mut attr = imagequant::new();
    attr.set_max_colors(3).unwrap();
    let px: Vec<_> = (0..64 * 64u32).map(|i| imagequant::RGBA::new((i % 64 * 4) as u8, (i / 64 * 4) as u8, 99, 255)).collect();
    let mut img = attr.new_image(px, 64, 64, 0.).unwrap();
    let mut res = attr.quantize(&mut img).unwrap();
    res.set_dithering_level(0.).unwrap();
    let mut copy = res.clone();
    assert_eq!(res.remapped(&mut img).unwrap(), copy.remapped(&mut img).unwrap());
}
