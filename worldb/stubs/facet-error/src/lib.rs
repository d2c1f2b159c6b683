//! Stand-in: the derive lives in facet-derive.
