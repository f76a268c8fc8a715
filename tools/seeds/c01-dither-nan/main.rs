fn main() {
    let mut a = imagequant::new();
    a.set_speed(10).unwrap();
    let px: Vec<rgb::RGBA8> = (0..64u8).map(|i| rgb::RGBA8::new(i, 2 * i, 255 - i, 255)).collect();
    let mut img = a.new_image_borrowed(&px, 8, 8, 0.).unwrap();
    let mut r = a.quantize(&mut img).unwrap();
    assert!(r.set_dithering_level(0.5).is_ok());
    for bad in [-0.1f32, 1.1, f32::INFINITY, f32::NAN] {
        assert_eq!(Err(imagequant::Error::ValueOutOfRange), r.set_dithering_level(bad), "{bad}");
    }
}
