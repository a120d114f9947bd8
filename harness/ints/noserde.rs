macro_rules! serde_ops {
    ($($x:tt)*) => {
        panic!("not built with serde")
    };
}
