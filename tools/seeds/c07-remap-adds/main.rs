use imagequant::RGBA;
fn main() {
    for max in [4u32, 16, 64] {
        let mut attr = imagequant::new();
        attr.set_max_colors(max).unwrap();
        let px: Vec<_> = (0..60 * 60u32).map(|i| { let x = i.wrapping_mul(2654435761); RGBA::new((x >> 5) as u8, (i / 60) as u8, (x >> 21) as u8, 255) }).collect();
        let mut img = attr.new_image(px.clone(), 60, 60, 0.).unwrap();
        img.set_background(attr.new_image(px, 60, 60, 0.).unwrap()).unwrap();
        let mut res = attr.quantize(&mut img).unwrap();
        res.set_dithering_level(1.).unwrap();
        let (pal, _) = res.remapped(&mut img).unwrap();
        assert!(pal.len() <= max as usize, "{} colours, {max} allowed", pal.len());
    }
}
