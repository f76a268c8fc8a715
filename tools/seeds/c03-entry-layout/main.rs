use imagequant_sys::*;
// liq_histogram_entry as declared in libimagequant.h: { liq_color color; unsigned int count; }
#[repr(C)]
struct CEntry { color: [u8; 4], count: u32 }
fn main() {
    unsafe {
        let attr = liq_attr_create().unwrap();
        let mut hist = liq_histogram_create(&attr).unwrap();
        let e = [CEntry { color: [10, 20, 30, 255], count: 7 }, CEntry { color: [200, 100, 50, 255], count: 9 }];
        assert!(liq_histogram_add_colors(&mut hist, &attr, e.as_ptr().cast(), 2, 0.) == liq_error::LIQ_OK);
        let mut res = None;
        assert!(liq_histogram_quantize(&mut hist, &attr, std::mem::transmute(&mut res)) == liq_error::LIQ_OK);
        let mut res: Box<liq_result> = res.unwrap();
        let pal = liq_get_palette(&mut res).unwrap();
        let mut got: Vec<[u8; 4]> = pal.as_slice().iter().map(|c| [c.r, c.g, c.b, c.a]).collect();
        got.sort();
        assert_eq!(got, vec![[10, 20, 30, 255], [200, 100, 50, 255]]);
    }
}
