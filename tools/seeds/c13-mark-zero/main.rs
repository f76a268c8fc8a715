use imagequant::RGBA;
fn main() {
    // several mixtures: every fixed colour must be in the palette
    for speed in [1, 3, 5, 8, 10] {
        for q in [1u8, 20, 60, 100] {
            let mut attr = imagequant::new();
            attr.set_speed(speed).unwrap();
            attr.set_quality(0, q).unwrap();
            attr.set_max_colors(24).unwrap();
            let px: Vec<_> = (0..90 * 90u32).map(|i| { let x = i.wrapping_mul(2654435761); RGBA::new((x >> 5) as u8, (i / 90) as u8, (x >> 21) as u8, 255) }).collect();
            let mut img = attr.new_image(px, 90, 90, 0.).unwrap();
            let fixed: Vec<_> = (0..16u8).map(|i| RGBA::new(i * 2, 200 + i, 255 - i, 255)).collect();
            for &f in &fixed {
                img.add_fixed_color(f).unwrap();
            }
            let mut res = attr.quantize(&mut img).unwrap();
            let (pal, _) = res.remapped(&mut img).unwrap();
            for f in &fixed {
                assert!(pal.contains(f), "fixed colour {f:?} missing (speed {speed}, quality {q})");
            }
        }
    }
}
