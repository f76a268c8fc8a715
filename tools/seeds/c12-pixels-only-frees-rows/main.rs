use imagequant_sys::*;
use std::os::raw::c_void;
use std::sync::Mutex;
static FREED: Mutex<Vec<usize>> = Mutex::new(Vec::new());
unsafe extern "C" fn my_free(p: *mut c_void) { FREED.lock().unwrap().push(p as usize); }
#[allow(deprecated)]
fn main() {
    unsafe {
        let px = vec![liq_color { r: 1, g: 2, b: 3, a: 255 }; 16];
        let rows: Vec<*const liq_color> = (0..4).map(|i| px.as_ptr().add(i * 4)).collect();
        for (flags, expect) in [
            (liq_ownership::LIQ_OWN_PIXELS, vec![px.as_ptr() as usize]),
            (liq_ownership::LIQ_OWN_ROWS, vec![rows.as_ptr() as usize]),
            (liq_ownership::LIQ_OWN_ROWS | liq_ownership::LIQ_OWN_PIXELS, vec![rows.as_ptr() as usize, px.as_ptr() as usize]),
        ] {
            FREED.lock().unwrap().clear();
            let attr = liq_attr_create_with_allocator(std::ptr::null_mut(), my_free).unwrap();
            let mut img = liq_image_create_rgba_rows(&attr, rows.as_ptr(), 4, 4, 0.).unwrap();
            assert!(liq_image_set_memory_ownership(&mut img, flags) == liq_error::LIQ_OK);
            liq_image_destroy(Some(img));
            let (mut a, mut b) = (FREED.lock().unwrap().clone(), expect);
            a.sort(); b.sort();
            assert_eq!(a, b);
        }
    }
}
