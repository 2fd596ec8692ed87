//! Verification stub: no tracer is registered, exactly as in a process that
//! never called `global_tracer_register`.
pub use muta_apm_derive as derive;

pub mod rustracing {
    pub mod tag {
        #[derive(Clone, Debug)]
        pub struct Tag;
        impl Tag {
            pub fn new<N, V>(_name: N, _value: V) -> Self {
                Tag
            }
        }
    }
    pub mod log {
        pub struct LogBuilder;
        impl LogBuilder {
            pub fn time(&mut self, _t: std::time::SystemTime) -> &mut Self {
                self
            }
        }
    }
}
pub mod rustracing_jaeger {
    pub mod span {
        #[derive(Clone, Debug)]
        pub struct SpanContext;
        pub struct Span;
        impl Span {
            pub fn log<F: FnOnce(&mut crate::rustracing::log::LogBuilder)>(&mut self, _f: F) {}
            pub fn context(&self) -> Option<&SpanContext> {
                None
            }
        }
    }
}

pub struct MutaTracer;
pub static MUTA_TRACER: MutaTracer = MutaTracer;

impl MutaTracer {
    pub fn span<N>(
        &self,
        _name: N,
        _tags: Vec<rustracing::tag::Tag>,
    ) -> Option<rustracing_jaeger::span::Span> {
        None
    }
}
