fn img(attr: &imagequant::Attributes, k: u32) -> imagequant::Image<'static> {
    let px: Vec<_> = (0..160 * 160u32).map(|i| { let x = i.wrapping_mul(2654435761); imagequant::RGBA::new((x >> 3) as u8 / k as u8, (i / 160) as u8, (x >> 17) as u8 / (5 - k) as u8, 255) }).collect();
    attr.new_image(px, 160, 160, 0.).unwrap()
}
fn main() {
    let mut attr = imagequant::new();
    attr.set_speed(5).unwrap();
    attr.set_max_colors(6).unwrap();
    let mut res = attr.quantize(&mut img(&attr, 1)).unwrap();
    let mut other = res.clone();
    let (expect, expect_px) = other.remapped(&mut img(&attr, 4)).unwrap();
    res.remapped(&mut img(&attr, 1)).unwrap();
    let (got, px) = res.remapped(&mut img(&attr, 4)).unwrap();
    assert_eq!(px, expect_px);
    assert_eq!(got, expect, "palette of another remapping");
}
