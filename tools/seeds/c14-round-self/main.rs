// the palette reported after a dithered remap of an image must differ from the unrefined palette when refinement moved it:
// remapping the same image with the dither map disabled by speed gives the unrefined palette
fn pal(first: bool) -> Vec<imagequant::RGBA> {
    let mut attr = imagequant::new();
    attr.set_speed(5).unwrap();
    attr.set_max_colors(6).unwrap();
    let px: Vec<_> = (0..160 * 160u32).map(|i| { let x = i.wrapping_mul(2654435761); imagequant::RGBA::new((x >> 3) as u8, (i / 160) as u8, (x >> 17) as u8 / 2, 255) }).collect();
    let mut img = attr.new_image(px, 160, 160, 0.).unwrap();
    let mut res = attr.quantize(&mut img).unwrap();
    if first { return res.palette_vec(); }
    res.set_dithering_level(1.).unwrap();
    res.remapped(&mut img).unwrap().0
}
fn main() {
    assert_ne!(pal(true), pal(false), "refinement of the palette is lost");
}
