fn main() {
    let attr = imagequant::new();
    let px = vec![imagequant::RGBA::new(9, 8, 7, 255); 36];
    for (w, h) in [(6, 6), (4, 9), (9, 4), (36, 1), (3, 3), (6, 5)] {
        let mut img = attr.new_image_borrowed(&px, 6, 6, 0.).unwrap();
        let bg = attr.new_image_borrowed(&px, w, h, 0.).unwrap();
        assert_eq!(img.set_background(bg).is_ok(), (w, h) == (6, 6), "{w}x{h}");
    }
}
