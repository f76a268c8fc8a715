fn main() {
    let mut oks = 0;
    for speed in 1..=10 {
        for colors in [2u32, 8, 250, 256] {
            for min in [30u8, 60, 90, 99] {
                for bits in [0u8, 4] {
                    let mut attr = imagequant::new();
                    attr.set_speed(speed).unwrap();
                    attr.set_max_colors(colors).unwrap();
                    attr.set_quality(min, 100).unwrap();
                    attr.set_min_posterization(bits).unwrap();
                    let px: Vec<_> = (0..40 * 40u32).map(|i| imagequant::RGBA::new(((i * 7 % 200) / 25 * 30) as u8, (i / 40 / 8 * 40) as u8, (i % 40 / 10 * 60) as u8, 255)).collect();
                    let mut img = attr.new_image(px, 40, 40, 0.).unwrap();
                    img.add_fixed_color(imagequant::RGBA::new(0, 0, 0, 0)).unwrap();
                    if let Ok(r) = attr.quantize(&mut img) {
                        oks += 1;
                        let q = r.quantization_quality().expect("measured");
                        assert!(q >= min, "speed {speed} colors {colors} min {min} bits {bits} got {q}");
                    }
                }
            }
        }
    }
    println!("{oks}");
}
