//! Questions about types.
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};

pub fn rigid(t: Ty) -> Option<RigidTy> {
    match t.kind() {
        TyKind::RigidTy(r) => Some(r),
        _ => None,
    }
}
/// Bit width and signedness of an integer-like type.
pub fn int_info(t: Ty) -> Option<(u16, bool)> {
    Some(match rigid(t)? {
        RigidTy::Bool => (1, false),
        RigidTy::Char => (32, false),
        RigidTy::Int(i) => (i.num_bytes() as u16 * 8, true),
        RigidTy::Uint(i) => (i.num_bytes() as u16 * 8, false),
        _ => return None,
    })
}
pub fn is_char(t: Ty) -> bool {
    matches!(rigid(t), Some(RigidTy::Char))
}
/// Path of an ADT without generics, `alloc::`/`core::` spelled `std::`.
pub fn adt_path(t: Ty) -> Option<String> {
    match rigid(t)? {
        RigidTy::Adt(d, _) => {
            let n = d.name().to_string();
            let n = n.replacen("alloc::", "std::", if n.starts_with("alloc::") { 1 } else { 0 });
            Some(n.replacen("core::", "std::", if n.starts_with("core::") { 1 } else { 0 }))
        }
        _ => None,
    }
}
pub fn adt_last(t: Ty) -> Option<String> {
    adt_path(t).map(|p| p.rsplit("::").next().unwrap().to_string())
}
pub fn adt_args(t: Ty) -> Vec<Ty> {
    match rigid(t) {
        Some(RigidTy::Adt(_, a)) => a.0.iter().filter_map(|x| x.ty().copied()).collect(),
        _ => vec![],
    }
}
pub fn is_local_adt(t: Ty) -> bool {
    match rigid(t) {
        Some(RigidTy::Adt(d, _)) => d.krate().is_local,
        _ => false,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Vec,
    String,
    HashMap,
    HashSet,
    BitVec,
    Graph,
    Ptr,
    Str,
    Other,
}
/// Which built-in model represents values of this type.
pub fn kind(t: Ty) -> Kind {
    match rigid(t) {
        Some(RigidTy::Ref(_, p, _)) | Some(RigidTy::RawPtr(p, _)) => {
            if matches!(rigid(p), Some(RigidTy::Str)) {
                return Kind::Str;
            }
            Kind::Ptr
        }
        Some(RigidTy::Adt(..)) => match adt_path(t).unwrap().as_str() {
            "std::vec::Vec" | "std::collections::VecDeque" => Kind::Vec,
            "std::string::String" => Kind::String,
            "std::collections::HashMap" | "std::collections::BTreeMap"
            | "std::collections::hash::map::HashMap" | "std::collections::btree::map::BTreeMap"
            | "std::collections::hash_map::HashMap" | "std::collections::btree_map::BTreeMap" => Kind::HashMap,
            "std::collections::HashSet" | "std::collections::BTreeSet"
            | "std::collections::hash_set::HashSet" | "std::collections::btree_set::BTreeSet"
            | "std::collections::hash::set::HashSet" | "std::collections::btree::set::BTreeSet" => Kind::HashSet,
            "bit_vec::BitVec" => Kind::BitVec,
            "petgraph::Graph" | "petgraph::graph_impl::Graph" | "petgraph::graph::Graph" => Kind::Graph,
            "std::boxed::Box" | "std::ptr::NonNull" | "std::ptr::Unique" | "std::ptr::non_null::NonNull"
            | "std::ptr::unique::Unique" => Kind::Ptr,
            _ => Kind::Other,
        },
        _ => Kind::Other,
    }
}
pub fn pointee(t: Ty) -> Option<Ty> {
    match rigid(t)? {
        RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => Some(p),
        RigidTy::Adt(..) if kind(t) == Kind::Ptr => adt_args(t).first().copied(),
        _ => None,
    }
}
pub fn is_mut_ref(t: Ty) -> bool {
    matches!(rigid(t), Some(RigidTy::Ref(_, _, rustc_public::mir::Mutability::Mut)))
        || matches!(rigid(t), Some(RigidTy::RawPtr(_, rustc_public::mir::Mutability::Mut)))
        || kind(t) == Kind::Ptr && matches!(rigid(t), Some(RigidTy::Adt(..)))
}
/// Element type of a slice, array, Vec or BitVec.
pub fn elem(t: Ty) -> Option<Ty> {
    match rigid(t)? {
        RigidTy::Slice(e) | RigidTy::Array(e, _) => Some(e),
        RigidTy::Adt(..) => match kind(t) {
            Kind::Vec => adt_args(t).first().copied(),
            Kind::BitVec => Some(Ty::bool_ty()),
            _ => None,
        },
        _ => None,
    }
}
pub fn is_slice(t: Ty) -> bool {
    matches!(rigid(t), Some(RigidTy::Slice(_)))
}
pub fn array_len(t: Ty) -> Option<u64> {
    match rigid(t)? {
        RigidTy::Array(_, n) => n.eval_target_usize().ok(),
        _ => None,
    }
}
pub fn is_enum(t: Ty) -> bool {
    t.kind().is_enum()
}
pub fn num_variants(t: Ty) -> usize {
    match rigid(t) {
        Some(RigidTy::Adt(d, _)) => d.num_variants(),
        _ => 0,
    }
}
pub fn variant_name(t: Ty, v: usize) -> String {
    match rigid(t) {
        Some(RigidTy::Adt(d, _)) => d.variants()[v].name().to_string(),
        _ => format!("#{v}"),
    }
}
pub fn variant_index(t: Ty, name: &str) -> Option<usize> {
    (0..num_variants(t)).find(|v| variant_name(t, *v) == name)
}
/// Discriminant value of a variant, as an unsigned pattern.
pub fn discr_val(t: Ty, v: usize) -> u128 {
    match rigid(t) {
        Some(RigidTy::Adt(d, _)) => {
            let vs = d.variants();
            let vd = d.discriminant_for_variant(vs[v].idx());
            vd.val
        }
        _ => v as u128,
    }
}
/// Field types of a struct, tuple, closure or enum variant.
pub fn fields(t: Ty, variant: usize) -> Vec<Ty> {
    match rigid(t) {
        Some(RigidTy::Adt(d, a)) => {
            let vs = d.variants();
            match vs.get(variant) {
                Some(v) => v.fields().iter().map(|f| f.ty_with_args(&a)).collect(),
                None => vec![],
            }
        }
        Some(RigidTy::Tuple(ts)) => ts,
        Some(RigidTy::Closure(_, a)) => {
            // Last generic argument is the tuple of captured variables.
            match a.0.last().and_then(|x| x.ty().copied()).and_then(rigid) {
                Some(RigidTy::Tuple(ts)) => ts,
                _ => vec![],
            }
        }
        _ => vec![],
    }
}
pub fn field_names(t: Ty, variant: usize) -> Vec<String> {
    match rigid(t) {
        Some(RigidTy::Adt(d, _)) => match d.variants().get(variant) {
            Some(v) => v.fields().iter().map(|f| f.name.to_string()).collect(),
            None => vec![],
        },
        _ => vec![],
    }
}
pub fn field_index(t: Ty, name: &str) -> Option<usize> {
    field_names(t, 0).iter().position(|n| n == name)
}
pub fn is_aggregate(t: Ty) -> bool {
    match rigid(t) {
        Some(RigidTy::Adt(d, _)) => d.kind() == AdtKind::Struct && kind(t) == Kind::Other,
        Some(RigidTy::Tuple(_)) | Some(RigidTy::Closure(..)) => true,
        _ => false,
    }
}
pub fn size(t: Ty) -> Option<usize> {
    Some(t.layout().ok()?.shape().size.bytes())
}

/// How to find the active variant of an enum in memory.
pub enum Tag {
    Single(usize),
    Direct { off: usize, len: usize },
    Niche { off: usize, len: usize, untagged: usize, lo: usize, hi: usize, start: u128 },
}
pub fn tag(t: Ty) -> Option<Tag> {
    use rustc_public::abi::{Primitive, Scalar};
    let sh = t.layout().ok()?.shape();
    match sh.variants {
        VariantsShape::Empty => None,
        VariantsShape::Single { index } => Some(Tag::Single(vidx(index))),
        VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
            let prim = match tag {
                Scalar::Initialized { value, .. } => value,
                Scalar::Union { value } => value,
            };
            let len = match prim {
                Primitive::Int { length, .. } => length.bits() / 8,
                Primitive::Pointer(_) => 8,
                Primitive::Float { length } => length.bits() / 8,
            };
            let off = field_off(&sh.fields, tag_field)?;
            Some(match tag_encoding {
                TagEncoding::Direct => Tag::Direct { off, len },
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => Tag::Niche {
                    off,
                    len,
                    untagged: vidx(untagged_variant),
                    lo: vidx(*niche_variants.start()),
                    hi: vidx(*niche_variants.end()),
                    start: niche_start,
                },
            })
        }
    }
}
pub fn vidx(v: VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}
pub fn field_off(f: &FieldsShape, i: usize) -> Option<usize> {
    match f {
        FieldsShape::Primitive => Some(0),
        FieldsShape::Union(_) => Some(0),
        FieldsShape::Array { stride, .. } => Some(stride.bytes() * i),
        FieldsShape::Arbitrary { offsets } => offsets.get(i).map(|o| o.bytes()),
    }
}
/// Byte offsets of the fields of a variant.
pub fn offsets(t: Ty, variant: usize) -> Option<Vec<usize>> {
    let sh = t.layout().ok()?.shape();
    if let VariantsShape::Multiple { variants, .. } = &sh.variants {
        return Some(variants.get(variant)?.offsets.iter().map(|o| o.bytes()).collect());
    }
    let n = fields(t, variant).len();
    (0..n).map(|i| field_off(&sh.fields, i)).collect()
}
