fn main() {
    let mut attr = imagequant::new();
    attr.set_speed(4).unwrap();
    attr.set_max_colors(4).unwrap();
    let a: Vec<_> = (0..4096u32).map(|i| if i % 2 == 0 { imagequant::RGBA::new(255, 0, 0, 255) } else { imagequant::RGBA::new(0, 0, 255, 255) }).collect();
    let b: Vec<_> = (0..4096u32).map(|i| imagequant::RGBA::new(0, 255 - (i % 40) as u8, 0, 255)).collect();
    let mut ia = attr.new_image(a, 64, 64, 0.).unwrap();
    let mut res = attr.quantize(&mut ia).unwrap();
    let q = res.quantization_error().expect("known at this speed");
    let mut ib = attr.new_image(b, 64, 64, 0.).unwrap();
    res.set_dithering_level(1.).unwrap();
    res.remapped(&mut ib).unwrap();
    let r = res.remapping_error().unwrap();
    assert!(r > q + 1., "remapping green to red/blue must report a large error: {r} vs {q}");
}
