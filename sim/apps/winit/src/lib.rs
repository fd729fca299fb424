//! The event types of winit 0.29 that the viewer's gesture tracking uses (the simulator is the event source).
pub mod dpi {
    #[derive(Debug, Copy, Clone, Default, PartialEq)]
    pub struct PhysicalPosition<P> {
        pub x: P,
        pub y: P,
    }
}
pub mod event {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
    pub struct DeviceId(pub u32);
    #[derive(Debug, Hash, PartialEq, Eq, Clone, Copy)]
    pub enum TouchPhase {
        Started,
        Moved,
        Ended,
        Cancelled,
    }
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum Force {
        Normalized(f64),
    }
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Touch {
        pub device_id: DeviceId,
        pub phase: TouchPhase,
        pub location: super::dpi::PhysicalPosition<f64>,
        pub force: Option<Force>,
        pub id: u64,
    }
}
