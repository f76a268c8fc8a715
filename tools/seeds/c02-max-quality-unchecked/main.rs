use imagequant_sys::*;
fn main() {
    unsafe {
        let attr = liq_attr_create().unwrap();
        assert_eq!(100, liq_get_max_quality(&attr));
        let hist = liq_histogram_create(&attr).unwrap();
        let wrong = &*(&*hist as *const liq_histogram as *const liq_attr);
        assert_eq!(!0, liq_get_min_quality(wrong));
        assert_eq!(!0, liq_get_max_quality(wrong));
        liq_histogram_destroy(Some(hist));
        liq_attr_destroy(Some(attr));
    }
}
