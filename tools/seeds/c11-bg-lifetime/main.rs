// With --cfg bad: a safe program that uses pixels after they were released; the compiler has to reject it.
#![allow(unexpected_cfgs)]
use imagequant::*;
fn main() {
    let a = new();
    #[cfg(not(bad))]
    let pixels = vec![RGBA::new(9, 9, 9, 255); 4];
    let mut img = a.new_image(vec![RGBA::new(1, 2, 3, 255); 4], 2, 2, 0.).unwrap();
    {
        #[cfg(bad)]
        let pixels = vec![RGBA::new(9, 9, 9, 255); 4];
        let bg = a.new_image_borrowed(&pixels, 2, 2, 0.).unwrap();
        img.set_background(bg).unwrap();
    }
    let _ = a.quantize(&mut img);
}
