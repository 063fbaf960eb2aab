// ---- C30: every build answers the same -----------------------------------------------------------------------

#[path = "../plain/src/answers.rs"]
mod answers;

type Plain = unsafe extern "C" fn(*const u8, usize, *mut u64);

/// The optimised build, a library of its own.
fn plain() -> Plain {
    static F: std::sync::OnceLock<Plain> = std::sync::OnceLock::new();
    *F.get_or_init(|| {
        let path = std::env::var("YAMD_PLAIN_LIB").expect("YAMD_PLAIN_LIB names the built library");
        let path = std::ffi::CString::new(path).expect("a path");
        unsafe {
            let lib = libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            assert!(!lib.is_null(), "the library cannot be loaded");
            let f = libc::dlsym(lib, c"yamd_plain".as_ptr());
            assert!(!f.is_null(), "the library has no yamd_plain");
            std::mem::transmute::<*mut libc::c_void, Plain>(f)
        }
    })
}

fn builds(s: &str, st: &mut Stats) -> Res {
    let plain = plain();
    let checked = answers::answers(s, &|f| imp::catch_impl(f));
    let mut optimised = [0; answers::WHAT.len()];
    imp::enter(|| unsafe { plain(s.as_ptr(), s.len(), optimised.as_mut_ptr()) });
    st.state(checked[1]);
    st.validated += 1;
    st.transitions += checked.len() as u64;
    for (i, what) in answers::WHAT.iter().enumerate() {
        if checked[i] != optimised[i] {
            return Err(format!(
                "{what}: the optimised build's answer {:x} is not the checked one's {:x} (0: a panic)",
                optimised[i], checked[i]
            ));
        }
    }
    Ok(())
}

fn builds_extreme(name: &str, st: &mut Stats) -> Res {
    let f = EXTREMES.iter().find(|e| e.0 == name).expect("an extreme case").1;
    // writing down the answers for comparison needs more stack than finding them
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn_scoped(s, || builds(&f(), st))
            .expect("a thread")
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}
