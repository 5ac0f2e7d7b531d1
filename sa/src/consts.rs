//! Decoding of compile-time constants into abstract values.
use crate::interp::Eng;
use crate::tyx::{self, Kind, Tag};
use crate::val::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::ty::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn constant(e: &mut Eng, c: &MirConst) -> V {
    let ty = c.ty();
    match c.kind() {
        ConstantKind::Allocated(a) => decode(e, a, 0, ty),
        ConstantKind::ZeroSized => zst(ty),
        ConstantKind::Ty(t) => match t.kind() {
            TyConstKind::Value(ty, a) => decode(e, a, 0, *ty),
            TyConstKind::ZSTValue(ty) => zst(*ty),
            _ => match t.eval_target_usize() {
                Ok(n) => V::us(n as u128),
                Err(_) => V::Opq(fresh("const"), ty),
            },
        },
        _ => V::Opq(fresh("const"), ty),
    }
}
pub fn zst(ty: Ty) -> V {
    match tyx::rigid(ty) {
        Some(RigidTy::FnDef(..)) => V::Fun(ty),
        Some(RigidTy::Array(..)) => V::agg(vec![]),
        Some(RigidTy::Adt(..)) if tyx::is_enum(ty) => {
            let v = match tyx::tag(ty) {
                Some(Tag::Single(v)) => v,
                _ => 0,
            };
            let pay = tyx::fields(ty, v).into_iter().map(zst).collect();
            V::En(Rc::new(EnumV { ty, disc: V::C(v as u128, 8), pay: BTreeMap::from([(v, pay)]), src: None }))
        }
        _ => {
            if tyx::kind(ty) != Kind::Other {
                return V::Opq(fresh("zst"), ty);
            }
            V::agg(tyx::fields(ty, 0).into_iter().map(zst).collect())
        }
    }
}
fn uint(a: &Allocation, off: usize, len: usize) -> Option<u128> {
    let mut v = 0u128;
    for i in (0..len).rev() {
        v = v << 8 | (*a.bytes.get(off + i)?)? as u128;
    }
    Some(v)
}
pub fn decode(e: &mut Eng, a: &Allocation, off: usize, ty: Ty) -> V {
    if let Some((w, _)) = tyx::int_info(ty) {
        let n = (w as usize + 7) / 8;
        return match uint(a, off, n) {
            Some(v) => V::C(v & mask(w), w),
            None => V::Undef,
        };
    }
    match tyx::kind(ty) {
        Kind::Ptr | Kind::Str => return pointer(e, a, off, ty),
        Kind::Vec => {
            return match tyx::elem(ty) {
                Some(t) => V::Seq(Rc::new(SeqV::empty(t))),
                None => V::Undef,
            }
        }
        Kind::String => return V::Str(Rc::new(StrV::default())),
        Kind::Other => {}
        _ => return V::Opq(fresh("const"), ty),
    }
    match tyx::rigid(ty) {
        Some(RigidTy::Array(el, _)) => {
            let n = tyx::array_len(ty).unwrap_or(0);
            let s = tyx::size(el).unwrap_or(0);
            V::agg((0..n as usize).map(|i| decode(e, a, off + i * s, el)).collect())
        }
        Some(RigidTy::FnPtr(_)) => {
            if let Some((_, p)) = a.provenance.ptrs.iter().find(|x| x.0 == off) {
                if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                    return V::Fun(i.ty());
                }
            }
            V::Opq(fresh("fnptr"), ty)
        }
        Some(RigidTy::FnDef(..)) => V::Fun(ty),
        Some(RigidTy::Adt(..)) if tyx::is_enum(ty) => {
            let v = match tyx::tag(ty) {
                Some(Tag::Single(v)) => v,
                Some(Tag::Direct { off: o, len }) => {
                    let Some(t) = uint(a, off + o, len) else { return V::Undef };
                    let m = mask(len as u16 * 8);
                    match (0..tyx::num_variants(ty)).find(|v| tyx::discr_val(ty, *v) & m == t) {
                        Some(v) => v,
                        None => return V::Undef,
                    }
                }
                Some(Tag::Niche { off: o, len, untagged, lo, hi, start }) => {
                    if a.provenance.ptrs.iter().any(|x| x.0 == off + o) {
                        untagged
                    } else {
                        let Some(t) = uint(a, off + o, len) else { return V::Undef };
                        let m = mask(len as u16 * 8);
                        let r = t.wrapping_sub(start) & m;
                        if r <= (hi - lo) as u128 {
                            lo + r as usize
                        } else {
                            untagged
                        }
                    }
                }
                None => return V::Undef,
            };
            let fs = tyx::fields(ty, v);
            let offs = tyx::offsets(ty, v).unwrap_or_default();
            let pay = fs
                .iter()
                .enumerate()
                .map(|(i, t)| decode(e, a, off + offs.get(i).copied().unwrap_or(0), *t))
                .collect();
            V::En(Rc::new(EnumV { ty, disc: V::C(v as u128, 8), pay: BTreeMap::from([(v, pay)]), src: None }))
        }
        Some(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Union => V::Opq(fresh("union"), ty),
        Some(RigidTy::Adt(..)) | Some(RigidTy::Tuple(_)) | Some(RigidTy::Closure(..)) => {
            let fs = tyx::fields(ty, 0);
            let offs = tyx::offsets(ty, 0).unwrap_or_default();
            V::agg(
                fs.iter()
                    .enumerate()
                    .map(|(i, t)| decode(e, a, off + offs.get(i).copied().unwrap_or(0), *t))
                    .collect(),
            )
        }
        _ => V::Opq(fresh("const"), ty),
    }
}
fn pointer(e: &mut Eng, a: &Allocation, off: usize, ty: Ty) -> V {
    let Some(p) = tyx::pointee(ty) else { return V::Opq(fresh("ptr"), ty) };
    let Some((_, prov)) = a.provenance.ptrs.iter().find(|x| x.0 == off) else {
        // Dangling pointer to a zero-sized or empty object.
        if tyx::kind(ty) == Kind::Str {
            return V::Str(Rc::new(StrV::default()));
        }
        let meta = if tyx::is_slice(p) { Some((V::us(0), V::us(0))) } else { None };
        let id = e.new_const(if tyx::is_slice(p) { V::agg(vec![]) } else { zst(p) });
        return V::Ref(Rc::new(Ptr { alloc: id, path: vec![], meta }));
    };
    let inner = uint(a, off, 8).unwrap_or(0) as usize;
    match GlobalAlloc::from(prov.0) {
        GlobalAlloc::Memory(m) => {
            if tyx::kind(ty) == Kind::Str {
                let len = uint(a, off + 8, 8).unwrap_or(0) as usize;
                let bytes: Option<Vec<u8>> = m.bytes[inner..inner + len].iter().copied().collect();
                return match bytes.and_then(|b| String::from_utf8(b).ok()) {
                    Some(s) => V::Str(Rc::new(StrV::lit(&s))),
                    None => V::Opq(fresh("str"), ty),
                };
            }
            if let Some(RigidTy::Slice(el)) = tyx::rigid(p) {
                let len = uint(a, off + 8, 8).unwrap_or(0) as usize;
                let s = tyx::size(el).unwrap_or(0);
                let items = (0..len).map(|i| decode(e, &m, inner + i * s, el)).collect();
                let id = e.new_const(V::agg(items));
                return V::Ref(Rc::new(Ptr { alloc: id, path: vec![], meta: Some((V::us(0), V::us(len as u128))) }));
            }
            let v = decode(e, &m, inner, p);
            let id = e.new_const(v);
            V::Ref(Rc::new(Ptr { alloc: id, path: vec![], meta: None }))
        }
        GlobalAlloc::Function(i) => V::Fun(i.ty()),
        GlobalAlloc::Static(s) => {
            use rustc_public::CrateDef;
            let sym = Sym::new(format!("static:{}", s.name()));
            e.statics.insert(s.name().to_string());
            e.sym_ty.insert(sym, p);
            V::Ref(Rc::new(Ptr { alloc: AllocId::Sym(sym), path: vec![], meta: None }))
        }
        _ => V::Opq(fresh("ptr"), ty),
    }
}
