//! A stand-in for the browser with the calls `headless_chrome` offers. Every
//! call may fail (chosen by the executor through `chrome_fails`), and the
//! page loads the file at some moment between `navigate_to` and the return of
//! `wait_until_navigated`; printing returns what `chrome_print` makes of the
//! loaded bytes.
use std::sync::{Arc, Mutex};

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("browser")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

extern "C" {
    /// does step `step` fail?
    fn chrome_fails(step: u32) -> u32;
    /// loads the page at a URL; 0: not yet (nothing was read)
    fn chrome_load(url: *const u8, len: usize, last: u32) -> u32;
    /// prints page number `page` into `buf`, returns the length
    fn chrome_print(page: u32, buf: *mut u8, cap: usize) -> usize;
}

fn step(n: u32) -> Result<()> {
    if unsafe { chrome_fails(n) } != 0 {
        Err(Error)
    } else {
        Ok(())
    }
}

pub mod protocol {
    pub mod cdp {
        #[allow(non_snake_case)]
        pub mod Target {
            pub type TargetID = String;
        }
    }
}

pub mod types {
    #[derive(Debug, Clone, Default)]
    pub struct PrintToPdfOptions {
        pub landscape: Option<bool>,
        pub display_header_footer: Option<bool>,
        pub print_background: Option<bool>,
        pub scale: Option<f64>,
        pub paper_width: Option<f64>,
        pub paper_height: Option<f64>,
        pub margin_top: Option<f64>,
        pub margin_bottom: Option<f64>,
        pub margin_left: Option<f64>,
        pub margin_right: Option<f64>,
        pub page_ranges: Option<String>,
        pub ignore_invalid_page_ranges: Option<bool>,
        pub header_template: Option<String>,
        pub footer_template: Option<String>,
        pub prefer_css_page_size: Option<bool>,
        pub transfer_mode: Option<TransferMode>,
    }
    #[derive(Debug, Copy, Clone)]
    pub enum TransferMode {
        ReturnAsBase64,
        ReturnAsStream,
    }
}
pub use browser::tab::Tab;
pub use browser::Browser;

pub mod browser {
    use super::*;
    pub mod tab {
        use super::*;
        pub struct Tab {
            pub(crate) id: String,
            pub(crate) url: Mutex<String>,
            pub(crate) page: Mutex<u32>,
        }
        impl Tab {
            fn load(&self, last: bool) {
                let mut page = self.page.lock().unwrap();
                if *page == 0 {
                    let url = self.url.lock().unwrap();
                    *page = unsafe { chrome_load(url.as_ptr(), url.len(), last as u32) };
                }
            }
            pub fn get_target_id(&self) -> &String {
                &self.id
            }
            pub fn navigate_to(&self, url: &str) -> Result<&Self> {
                step(3)?;
                *self.url.lock().unwrap() = url.to_string();
                *self.page.lock().unwrap() = 0;
                self.load(false);
                Ok(self)
            }
            pub fn wait_until_navigated(&self) -> Result<&Self> {
                step(4)?;
                self.load(true);
                Ok(self)
            }
            pub fn print_to_pdf(&self, _options: Option<types::PrintToPdfOptions>) -> Result<Vec<u8>> {
                step(5)?;
                let page = *self.page.lock().unwrap();
                let mut v = vec![0u8; 256];
                let n = unsafe { chrome_print(page, v.as_mut_ptr(), v.len()) };
                v.truncate(n);
                Ok(v)
            }
            pub fn close(&self, _fire_unload: bool) -> Result<bool> {
                Ok(true)
            }
        }
    }
    pub struct Browser {
        tabs: Arc<Mutex<Vec<Arc<Tab>>>>,
    }
    impl Browser {
        #[allow(clippy::should_implement_trait)]
        pub fn default() -> Result<Self> {
            step(1)?;
            // a browser starts with one blank tab
            let blank = Tab { id: "T0".to_string(), url: Mutex::new(String::new()), page: Mutex::new(0) };
            Ok(Browser { tabs: Arc::new(Mutex::new(vec![Arc::new(blank)])) })
        }
        pub fn get_tabs(&self) -> &Arc<Mutex<Vec<Arc<Tab>>>> {
            &self.tabs
        }
        pub fn new_tab(&self) -> Result<Arc<Tab>> {
            step(2)?;
            let mut t = self.tabs.lock().unwrap();
            let id = format!("T{}", t.len());
            let tab = Arc::new(Tab { id, url: Mutex::new(String::new()), page: Mutex::new(0) });
            t.push(tab.clone());
            Ok(tab)
        }
    }
}
