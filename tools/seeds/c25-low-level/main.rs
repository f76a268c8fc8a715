fn remap(level: f32) -> Vec<u8> {
    let attr = imagequant::new();
    let px: Vec<_> = (0..64 * 64u32).map(|i| { let v = (i % 64) as u8 * 4; imagequant::RGBA::new(v, v, v, 255) }).collect();
    let mut h = imagequant::Histogram::new(&attr);
    for v in [0u8, 255] { h.add_fixed_color(imagequant::RGBA::new(v, v, v, 255), 0.).unwrap(); }
    let mut res = h.quantize(&attr).unwrap();
    res.set_dithering_level(level).unwrap();
    let mut img = attr.new_image(px, 64, 64, 0.).unwrap();
    res.remapped(&mut img).unwrap().1
}
fn main() {
    assert_ne!(remap(0.5), remap(0.));
    assert_ne!(remap(0.1), remap(0.), "level 0.1 must dither");
}
