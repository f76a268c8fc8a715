use imagequant_sys::*;
use std::os::raw::c_void;
use std::sync::Mutex;
static FREED: Mutex<Vec<usize>> = Mutex::new(Vec::new());
unsafe extern "C" fn my_free(p: *mut c_void) { FREED.lock().unwrap().push(p as usize); }
#[allow(deprecated)]
fn main() {
    unsafe {
        let px = vec![liq_color { r: 1, g: 2, b: 3, a: 255 }; 16];
        for w in [4, 2] {
            FREED.lock().unwrap().clear();
            let attr = liq_attr_create_with_allocator(std::ptr::null_mut(), my_free).unwrap();
            let mut img = liq_image_create_rgba(&attr, px.as_ptr(), 4, 4, 0.).unwrap();
            let mut bg = liq_image_create_rgba(&attr, px.as_ptr(), w, w, 0.).unwrap();
            assert!(liq_image_set_memory_ownership(&mut bg, liq_ownership::LIQ_OWN_PIXELS) == liq_error::LIQ_OK);
            let e = liq_image_set_background(&mut img, bg);
            assert_eq!(w == 4, e == liq_error::LIQ_OK);
            liq_image_destroy(Some(img));
            assert_eq!(*FREED.lock().unwrap(), [px.as_ptr() as usize]);
        }
    }
}
