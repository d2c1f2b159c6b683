pub fn spawn_local<F: std::future::Future<Output = ()> + 'static>(f: F) {
    simrt::spawn_here(f)
}
