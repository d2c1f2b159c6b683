#[derive(Default)]
pub struct WasmLayerConfig {
    level: Option<tracing::Level>,
}
impl WasmLayerConfig {
    pub fn set_max_level(&mut self, l: tracing::Level) -> &mut Self {
        self.level = Some(l);
        self
    }
}
pub fn set_as_global_default_with_config(c: WasmLayerConfig) -> Result<(), std::fmt::Error> {
    let _ = c.level;
    Ok(())
}
