use imagequant::{Histogram, RGBA};
fn img(attr: &imagequant::Attributes, k: u32) -> imagequant::Image<'static> {
    let px: Vec<_> = (0..80 * 80u32).map(|i| { let x = i.wrapping_mul(2654435761).rotate_left(k); RGBA::new((x >> 5) as u8, (i / 80 * k) as u8, (x >> 21) as u8 / k as u8, 255) }).collect();
    attr.new_image(px, 80, 80, 0.).unwrap()
}
fn main() {
    for fixed in [false, true] {
        for level in [0., 1.] {
            let mut attr = imagequant::new();
            attr.set_max_colors(12).unwrap();
            attr.set_speed(4).unwrap();
            let mut hist = Histogram::new(&attr);
            hist.add_image(&attr, &mut img(&attr, 1)).unwrap();
            if fixed {
                hist.add_fixed_color(RGBA::new(1, 2, 3, 255), 0.).unwrap();
            }
            let mut res = hist.quantize(&attr).unwrap();
            res.set_dithering_level(level).unwrap();
            let before = res.palette_vec();
            for k in [2, 3, 1] {
                let (after, _) = res.remapped(&mut img(&attr, k)).unwrap();
                assert_eq!(before, after, "the palette changed");
            }
        }
    }
}
