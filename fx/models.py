"""Abstract models of the standard-library operations the repository uses (trusted base)."""
import re
from engine import U, UNIT, C

EXACT = {}
PATS = []
CACHE = {}

def model(*names):
    def deco(f):
        for n in names:
            EXACT[n] = f
        return f
    return deco

def pat(rx):
    def deco(f):
        PATS.append((re.compile(rx), f))
        return f
    return deco

def lookup(name):
    f = CACHE.get(name, 0)
    if f == 0:
        f = EXACT.get(name)
        if f is None:
            for rx, g in PATS:
                if rx.fullmatch(name):
                    f = g
                    break
        CACHE[name] = f
    return f

def none(): return ('a', None, 0, (), None)
def some(v): return ('a', None, 1, (((1, 0), v),), None)
def ok(v): return ('a', None, 0, (((0, 0), v),), None)
def err(v): return ('a', None, 1, (((1, 0), v),), None)
def ready(v): return ('a', None, 0, (((0, 0), v),), None)
PENDING = ('a', None, 1, (), None)
def struct(*vs): return ('a', None, 0, tuple(((0, i), v) for i, v in enumerate(vs)), None)

def alloc(st, v):
    root = ('H', ('n', st.next))
    st.next += 1
    st.mem[root] = v
    return ('r', root, ())

def variant_of(e, st, v):
    """variant index if known"""
    if v[0] == 'a':
        return v[2]
    if v[0] == 's':
        f = st.facts.get(v[1])
        if f is not None and f[0] == 'v':
            return f[1]
    return None

# ---------------------------------------------------------------- pointers
@model('<&mut T as core::ops::deref::DerefMut>::deref_mut', '<&mut T as core::ops::deref::Deref>::deref', '<&T as core::ops::deref::Deref>::deref')
def m_deref_ref(e, st, d, a, at, dt):
    return [(st, e.rd(st, e.deref(st, a[0])))]

@pat(r'<(alloc::rcs::arc::Arc<T, A>|alloc::rcs::rc::Rc<T, A>|alloc::boxed::Box<T, A>|std::sync::poison::mutex::MutexGuard<\'_, T>|core::cell::Ref(Mut)?<\'_, T>|alloc::collections::binary_heap::PeekMut<\'_, T, A>|spin::.*) as core::ops::deref::Deref(Mut)?>::deref(_mut)?')
def m_deref_ptr(e, st, d, a, at, dt):
    v = e.rd(st, e.deref(st, a[0]))
    l = e.deref(st, v)
    return [(st, ('r', l[0], l[1]))]

@pat(r'<(alloc::vec::Vec<T, A>|alloc::string::String|core::io::io_slice::IoSlice(Mut)?<\'a>) as core::ops::deref::Deref(Mut)?>::deref(_mut)?')
def m_deref_slice(e, st, d, a, at, dt):
    return [(st, a[0])]      # the sequence stands for its own slice

@pat(r'alloc::(vec::Vec|string::String)(::<T, A>)?::(as_mut_slice|as_slice|as_str|as_bytes|as_mut_vec|into_boxed_slice|into_bytes)')
def m_slice_id(e, st, d, a, at, dt):
    return [(st, a[0])]

@model('<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::Deref>::deref', '<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::DerefMut>::deref_mut')
def m_md_deref(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    return [(st, ('r', l[0], l[1] + ((0, 0),)))]

@model('core::mem::manually_drop::ManuallyDrop::<T>::new', 'core::cell::UnsafeCell::<T>::new', 'core::cell::Cell::<T>::new', 'core::cell::RefCell::<T>::new', 'std::sync::poison::mutex::Mutex::<T>::new')
def m_wrap_new(e, st, d, a, at, dt):
    return [(st, struct(a[0]))]

@pat(r'core::sync::atomic::Atomic::<.*>::new')
def m_atomic_new(e, st, d, a, at, dt):
    return [(st, struct(a[0]))]

@model('core::cell::UnsafeCell::<T>::get', 'core::cell::UnsafeCell::<T>::get_mut', 'core::cell::Cell::<T>::get_mut', 'core::cell::RefCell::<T>::get_mut')
def m_cell_ptr(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    return [(st, ('r', l[0], l[1] + ((0, 0),)))]

@pat(r'core::sync::atomic::Atomic::<.*>::get_mut')
def m_atomic_getmut(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    e.on_event(st, 'atomic_getmut', l)
    return [(st, ('r', l[0], l[1] + ((0, 0),)))]

@model('core::mem::manually_drop::ManuallyDrop::<T>::into_inner', 'core::cell::UnsafeCell::<T>::into_inner', 'core::cell::Cell::<T>::into_inner', 'core::cell::RefCell::<T>::into_inner')
def m_unwrap_inner(e, st, d, a, at, dt):
    return [(st, e.known(st, e.step_value(st, a[0], (0, 0))))]

@model('core::cell::Cell::<T>::get')
def m_cell_get(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    return [(st, e.rd(st, (l[0], l[1] + ((0, 0),))))]

@model('core::cell::Cell::<T>::set')
def m_cell_set(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    l2 = (l[0], l[1] + ((0, 0),))
    e.on_event(st, 'cellset', l2, a[1])
    e.on_write(st, l2, a[1])
    e.write(st, l2, a[1])
    return [(st, UNIT)]

@model('core::cell::Cell::<T>::replace')
def m_cell_replace(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    l2 = (l[0], l[1] + ((0, 0),))
    v = e.rd(st, l2)
    e.on_event(st, 'cellset', l2, a[1])
    e.on_write(st, l2, a[1])
    e.write(st, l2, a[1])
    return [(st, v)]

@model('core::cell::RefCell::<T>::borrow_mut', 'core::cell::RefCell::<T>::borrow')
def m_borrow_mut(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    e.on_event(st, 'borrow', l, d['m'])
    return [(st, ('r', l[0], l[1] + ((0, 0),)))]

@model('std::sync::poison::mutex::Mutex::<T>::lock')
def m_lock(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    l2 = (l[0], l[1] + ((0, 0),))
    e.on_event(st, 'lock', l)
    e.shared_havoc(st, l2)
    return [(st, ok(('r', l2[0], l2[1])))]

@model('std::sync::poison::mutex::Mutex::<T>::get_mut')
def m_mutex_getmut(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    return [(st, ok(('r', l[0], l[1] + ((0, 0),))))]

@model('std::sync::poison::mutex::Mutex::<T>::into_inner')
def m_mutex_into(e, st, d, a, at, dt):
    return [(st, ok(e.known(st, e.step_value(st, a[0], (0, 0)))))]

# ---------------------------------------------------------------- allocation
@model('alloc::boxed::Box::<T>::new', 'alloc::boxed::Box::<T>::pin', 'alloc::rcs::arc::Arc::<T>::new', 'alloc::rcs::rc::Rc::<T>::new', 'alloc::rcs::arc::Arc::<T>::pin', 'alloc::rcs::rc::Rc::<T>::pin')
def m_box_new(e, st, d, a, at, dt):
    p = alloc(st, a[0])
    e.on_event(st, 'alloc', d['p'], p, a[0])
    if d['m'] == 'pin':
        p = struct(p)
    return [(st, p)]

@pat(r'alloc::rcs::(arc::Arc|rc::Rc)::<T(, A)?>::(into_raw|from_raw|as_ptr|into_raw_with_allocator)|alloc::boxed::Box::<T(, A)?>::(into_raw|from_raw|leak|into_pin|as_ptr|as_mut_ptr)|core::ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) T>::(cast|cast_mut|cast_const|as_ref_unchecked|as_mut_unchecked)|core::ptr::non_null::NonNull::<T>::(new_unchecked|as_ptr|as_ref|as_mut|cast|from)|core::pin::Pin::<Ptr>::(new_unchecked|into_inner_unchecked)_')
def m_ptr_id(e, st, d, a, at, dt):
    e.on_event(st, 'ptrcast', d['p'], a[0])
    v = a[0]
    if d['m'] in ('as_ptr', 'as_ref', 'as_mut') and ('Arc' in d['p'] or 'Rc' in d['p'] or d['m'] in ('as_ref', 'as_mut')):
        v = e.rd(st, e.deref(st, v))
    return [(st, v)]

@model('alloc::boxed::convert::<impl core::convert::From<alloc::boxed::Box<T, A>> for core::pin::Pin<alloc::boxed::Box<T, A>>>::from')
def m_box_pin(e, st, d, a, at, dt):
    return [(st, struct(a[0]))]

@pat(r'core::ptr::null(_mut)?')
def m_null(e, st, d, a, at, dt):
    return [(st, C(0))]

@pat(r'core::ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) T>::is_null')
def m_is_null(e, st, d, a, at, dt):
    v = a[0]
    if v[0] == 'r':
        return [(st, C(0))]
    if v[0] == 'c':
        return [(st, C(1 if v[1] == 0 else 0))]
    if v[0] == 's' and e.nonnull(st, v):
        return [(st, C(0))]
    return [(st, e.cmp(st, 'Eq', v, C(0)))]

@pat(r'core::ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) T>::(as_ref|as_mut)')
def m_ptr_as_ref(e, st, d, a, at, dt):
    v = a[0]
    if v[0] == 'r' or v[0] == 's' and e.nonnull(st, v): return [(st, some(v))]
    return fork(e, st, e.cmp(st, 'Eq', v, C(0)), lambda s: some(v), lambda s: none())

@model('core::ptr::eq', 'core::ptr::addr_eq')
def m_ptr_eq(e, st, d, a, at, dt):
    return [(st, e.cmp(st, 'Eq', a[0], a[1]))]

@pat(r'alloc::rcs::(arc::Arc|rc::Rc)::<T, A>::ptr_eq')
def m_arc_ptr_eq(e, st, d, a, at, dt):
    x = e.rd(st, e.deref(st, a[0])); y = e.rd(st, e.deref(st, a[1]))
    return [(st, e.cmp(st, 'Eq', x, y))]

@model('core::ptr::read', 'core::intrinsics::read_via_copy')
def m_ptr_read(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    e.on_event(st, 'ptr_read', l)
    return [(st, e.rd(st, l))]

@model('core::ptr::write', 'core::intrinsics::write_via_move')
def m_ptr_write(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    e.on_event(st, 'ptr_write', l, a[1])
    e.on_write(st, l, a[1])
    e.write(st, l, a[1])
    return [(st, UNIT)]

@pat(r'core::ptr::(drop_in_place|drop_glue)|core::ptr::mut_ptr::<impl \*mut T>::drop_in_place')
def m_drop_in_place(e, st, d, a, at, dt):
    ty = d['a'][0]
    e.on_event(st, 'drop_in_place', a[0], ty)
    return ('DROP', e.deref(st, a[0]), ty)

@model('core::mem::manually_drop::ManuallyDrop::<T>::drop')
def m_md_drop(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    return ('DROP', (l[0], l[1] + ((0, 0),)), d['a'][0])

@model('core::mem::manually_drop::ManuallyDrop::<T>::take')
def m_md_take(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    return [(st, e.rd(st, (l[0], l[1] + ((0, 0),))))]

@model('<core::mem::manually_drop::ManuallyDrop<T> as core::clone::Clone>::clone')
def m_md_clone(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    l = (l[0], l[1] + ((0, 0),))
    v = e.rd(st, l)
    e.on_event(st, 'clone', d['a'][0], v, l)
    if 'ManuallyDrop<alloc::rcs::' in e.db.tys[d['a'][0]]['s'] or e.db.tys[d['a'][0]].get('def') in ('alloc::rcs::arc::Arc', 'alloc::rcs::rc::Rc'): e.on_event(st, 'rc_inc', v, '')
    return [(st, struct(v))]

@model('core::mem::drop')
def m_drop(e, st, d, a, at, dt):
    p = alloc(st, a[0])
    return ('DROP', (p[1], p[2]), d['a'][0])

@model('core::mem::forget')
def m_forget(e, st, d, a, at, dt):
    e.on_event(st, 'forget', a[0], d['a'][0])
    return [(st, UNIT)]

@model('core::mem::swap')
def m_swap(e, st, d, a, at, dt):
    l1 = e.deref(st, a[0]); l2 = e.deref(st, a[1])
    v1 = e.rd(st, l1); v2 = e.rd(st, l2)
    e.on_write(st, l1, v2); e.on_write(st, l2, v1)
    e.write(st, l1, v2); e.write(st, l2, v1)
    return [(st, UNIT)]

@model('core::mem::replace')
def m_replace(e, st, d, a, at, dt):
    l1 = e.deref(st, a[0])
    v1 = e.rd(st, l1)
    e.on_write(st, l1, a[1])
    e.write(st, l1, a[1])
    return [(st, v1)]

def default_of(e, st, ty):
    t = e.db.tys[ty]
    s = t['s']
    if t['k'] == 'adt' and t['def'] == 'core::option::Option':
        return none()
    if t['k'] == 'bool' or t['k'] == 'int':
        return C(0)
    if t['k'] == 'tuple' and not t['args']:
        return UNIT
    if t['k'] == 'adt' and getattr(e, 'leaf', {}).get(t['def']) == 'set':
        return e.leaf_call(st, (t['def'], 'set'), {'m': 'default', 'p': t['def'] + '::default'}, [], [], ty)[0][1]
    v = st.fresh(('default', s))
    if t['k'] == 'adt' and t['def'].startswith('alloc::'):
        st.facts[('call', 'is_empty', v)] = ('=', 1)
        st.facts[('call', 'len', v)] = ('=', 0)
    return v

@model('core::mem::take')
def m_take(e, st, d, a, at, dt):
    l1 = e.deref(st, a[0])
    v1 = e.rd(st, l1)
    n = default_of(e, st, d['a'][0])
    e.on_write(st, l1, n)
    e.write(st, l1, n)
    return [(st, v1)]

@model('core::default::Default::default')
def m_default(e, st, d, a, at, dt):
    return [(st, default_of(e, st, d['a'][0]))]

@pat(r'<(alloc::vec::Vec<T>|alloc::string::String|alloc::collections::.*) as core::default::Default>::default|(alloc::vec::Vec::<T>|alloc::collections::vec_deque::VecDeque::<T>|alloc::collections::binary_heap::BinaryHeap::<T>|slab::Slab::<T>|alloc::string::String)::(new|with_capacity)')
def m_cont_new(e, st, d, a, at, dt):
    v = st.fresh(('newcont',))
    st.facts[('call', 'is_empty', v)] = ('=', 1)
    st.facts[('call', 'len', v)] = ('=', 0)
    e.on_event(st, 'newcont', v)
    return [(st, v)]

@pat(r'core::intrinsics::(transmute|transmute_unchecked)|core::mem::transmute|core::intrinsics::black_box|core::convert::identity|core::hint::black_box|core::any::.*assert.*')
def m_identity(e, st, d, a, at, dt):
    return [(st, a[0])]

@pat(r'core::intrinsics::(likely|unlikely|assume|assert_inhabited|assert_zero_valid|cold_path)')
def m_nop(e, st, d, a, at, dt):
    return [(st, a[0] if a else UNIT)]

# ---------------------------------------------------------------- Arc
@pat(r'<alloc::rcs::(arc::Arc|rc::Rc|arc::Weak|rc::Weak)<T, A> as core::clone::Clone>::clone')
def m_arc_clone(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    v = e.rd(st, l)
    e.on_event(st, 'clone', d['a'][0], v, l)
    e.on_event(st, 'rc_inc', v, 'weak ' if '::Weak' in d['p'] + (d.get('rp') or '') else '')
    return [(st, v)]

@pat(r'alloc::rcs::arc::Arc::<T(, A)?>::(increment|decrement)_strong_count')
def m_arc_inc(e, st, d, a, at, dt):
    if d['m'][0] == 'd': return None
    e.on_event(st, 'rc_inc', a[0], '')
    return [(st, UNIT)]

@pat(r'alloc::rcs::(arc::Weak|rc::Weak)::<T(, A)?>::upgrade')
def m_upgrade(e, st, d, a, at, dt):
    v = e.rd(st, e.deref(st, a[0]))
    s2 = st.clone()
    e.on_event(st, 'upgrade', v, 1)
    e.on_event(s2, 'upgrade', v, 0)
    return [(st, some(v)), (s2, none())]

@pat(r'alloc::rcs::(arc::Arc|rc::Rc)::<T, A>::downgrade')
def m_downgrade(e, st, d, a, at, dt):
    v = e.rd(st, e.deref(st, a[0]))
    return [(st, v)]

@pat(r'alloc::rcs::(arc::Arc|rc::Rc)::<T, A>::get_mut')
def m_arc_getmut(e, st, d, a, at, dt):
    v = e.rd(st, e.deref(st, a[0]))
    l = e.deref(st, v)
    s2 = st.clone()
    e.on_event(st, 'arc_getmut', v, 1)
    e.on_event(s2, 'arc_getmut', v, 0)
    return [(st, some(('r', l[0], l[1]))), (s2, none())]

@pat(r'alloc::rcs::(arc::Arc|rc::Rc)::<T, A>::(try_unwrap|into_inner)')
def m_try_unwrap(e, st, d, a, at, dt):
    v = a[0]
    l = e.deref(st, v)
    s2 = st.clone()
    e.on_event(st, 'arc_unwrap', v, 1)
    e.on_event(s2, 'arc_unwrap', v, 0)
    inner = e.rd(st, l)
    if d['m'] == 'into_inner':
        return [(st, some(inner)), (s2, none())]
    return [(st, ok(inner)), (s2, err(v))]

# ---------------------------------------------------------------- atomics
@pat(r'core::sync::atomic::Atomic::<.*>::(load|store|swap|compare_exchange|compare_exchange_weak|fetch_add|fetch_sub|fetch_or|fetch_and|fetch_xor)')
def m_atomic(e, st, d, a, at, dt):
    op = d['m']
    l = e.deref(st, a[0])
    l2 = (l[0], l[1] + ((0, 0),))
    nord = 2 if op.startswith('compare') else 1
    vals = a[1:len(a) - nord]
    ords = tuple(ORD(v) for v in a[len(a) - nord:])
    if op == 'store':
        e.on_event(st, 'atomic', op, l, vals, ords, None)
        e.write(st, l2, vals[0])
        return [(st, UNIT)]
    if op.startswith('compare'):
        s2 = st.clone()
        e.on_event(st, 'atomic', op, l, vals, ords, 1)
        e.write(st, l2, vals[1])
        r2 = s2.fresh(('atomic', op))
        e.on_event(s2, 'atomic', op, l, vals, ords, 0)
        e.assume_ne_cas(s2, r2, vals[0], op)
        e.write(s2, l2, r2)
        return [(st, ok(vals[0])), (s2, err(r2))]
    r = st.fresh(('atomic', op))
    e.on_event(st, 'atomic', op, l, vals, ords, r)
    if op == 'load':
        e.write(st, l2, r)
    elif op == 'swap':
        e.write(st, l2, vals[0])
    else:
        e.write(st, l2, st.fresh(('atomic', op)))
    return [(st, r)]

ORDN = ['Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst']
def ORD(v):
    if v[0] == 'a':
        return ORDN[v[2]] if v[2] < 5 else '?'
    if v[0] == 'c':
        return ORDN[v[1]] if v[1] < 5 else '?'
    return '?'

@model('core::sync::atomic::fence')
def m_fence(e, st, d, a, at, dt):
    e.on_event(st, 'fence', ORD(a[0]))
    return [(st, UNIT)]

# ---------------------------------------------------------------- tasks
@pat(r"core::task::wake::Context::<'a>::waker|futures_.*::Context::waker")
def m_cx_waker(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    return [(st, e.rd(st, (l[0], l[1] + ((0, 'w'),))))]

@pat(r"core::task::wake::Context::<'a>::from_waker")
def m_cx_from(e, st, d, a, at, dt):
    return [(st, ('a', None, 0, (((0, 'w'), a[0]),), None))]

@model('<core::task::wake::Waker as core::clone::Clone>::clone')
def m_waker_clone(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    v = e.rd(st, l)
    n = st.fresh(('wclone',))
    e.on_event(st, 'waker_clone', l, v, n)
    return [(st, n)]

@model('<core::task::wake::Waker as core::clone::Clone>::clone_from')
def m_waker_clone_from(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    src = e.deref(st, a[1])
    n = st.fresh(('wclone',))
    e.on_event(st, 'waker_clone', src, e.rd(st, src), n)
    e.on_write(st, l, n)
    e.write(st, l, n)
    return [(st, UNIT)]

@model('core::task::wake::Waker::wake')
def m_wake(e, st, d, a, at, dt):
    e.on_event(st, 'wake', a[0], None)
    return [(st, UNIT)]

@model('core::task::wake::Waker::wake_by_ref')
def m_wake_by_ref(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    e.on_event(st, 'wake', e.rd(st, l), l)
    return [(st, UNIT)]

@model('core::task::wake::Waker::will_wake')
def m_will_wake(e, st, d, a, at, dt):
    x = e.rd(st, e.deref(st, a[0])); y = e.rd(st, e.deref(st, a[1]))
    if x == y:
        return [(st, C(1))]
    s2 = st.clone()
    lx = e.deref(st, a[0]); ly = e.deref(st, a[1])
    e.on_event(st, 'will_wake', x, y, 1, lx, ly)
    e.on_event(s2, 'will_wake', x, y, 0, lx, ly)
    return [(st, C(1)), (s2, C(0))]

# ---------------------------------------------------------------- closures run by std
@model('std::panic::catch_unwind')
def m_catch(e, st, d, a, at, dt):
    f = a[0]
    ty = at[0]
    t = e.db.tys[ty]
    if t['k'] == 'adt' and 'AssertUnwindSafe' in t['def']:
        ty = t['args'][0]
        f = e.step_value(st, f, (0, 0))
    desc = {'p': 'core::ops::function::FnOnce::call_once', 'tr': 'core::ops::function::FnOnce', 'm': 'call_once', 'a': [ty]}
    e.on_event(st, 'catch_unwind')
    return ('TAIL', 'w_catch', None, desc, [f, UNIT], [ty, None], None)

@model('std::thread::local::LocalKey::<T>::with')
def m_tls_with(e, st, d, a, at, dt):
    ty = at[1]
    desc = {'p': 'core::ops::function::FnOnce::call_once', 'tr': 'core::ops::function::FnOnce', 'm': 'call_once', 'a': [ty]}
    import re
    t = e.db.tys[d['a'][0]]['s'] if d['a'] and isinstance(d['a'][0], int) else ''
    arg = struct(('s', 'TLS_' + re.sub(r'\W+', '_', re.sub(r'\w+::', '', t)).strip('_')))       # told apart by the type of what they hold
    return ('TAIL', None, None, desc, [a[1], arg], [ty, None], dt)

@pat(r'futures::task_impl::Spawn::<T>::poll_fn_notify')
def m_poll_fn_notify(e, st, d, a, at, dt):
    """futures 0.1: calls the closure on the spawned object with a task whose notification handle comes from the argument"""
    l = e.deref(st, a[0])
    ty = at[3]
    if ty is None: return None
    e.on_event(st, 'notify01', l, a[1], a[2])
    desc = {'p': 'core::ops::function::FnOnce::call_once', 'tr': 'core::ops::function::FnOnce', 'm': 'call_once', 'a': [ty]}
    arg = struct(('r', l[0], l[1] + ((0, 2),)))
    return ('TAIL', None, None, desc, [a[3], arg], [ty, None], dt)

# ---------------------------------------------------------------- containers
CONT = r'(alloc::vec::Vec|alloc::collections::vec_deque::VecDeque|alloc::collections::binary_heap::BinaryHeap|slab::Slab|alloc::string::String|core::slice|core::str)(::<T(, A)?>|::<impl \[T\]>|::<impl str>)?'

def content(e, st, p):
    return e.rd(st, e.deref(st, p))

@pat(CONT + r'::(len|is_empty|capacity)')
def m_len(e, st, d, a, at, dt):
    v = content(e, st, a[0])
    m = d['m']
    if v[0] == 'a' and m != 'capacity' and v[4] is None and all(x[0][0] == 'e' for x in v[3]):
        n = len(v[3])
        return [(st, C(n if m == 'len' else int(n == 0)))]
    b = v[1] if v[0] == 's' else None
    if m == 'len' and isinstance(b, tuple) and len(b) == 2 and b[1] == '*' and isinstance(b[0], tuple) and b[0][:2] == ('call', 'slice'):
        return [(st, e.binop(st, 'Sub', e.known(st, b[0][4]), e.known(st, b[0][3]), ('len', e.cur_line)))]
    s = ('s', ('call', m, v))
    return [(st, e.known(st, s))]

@pat(r'core::convert::num::<impl core::convert::From<bool> for \w+>::from')
def m_from_bool(e, st, d, a, at, dt):
    if not e.slices or a[0][0] != 's': return None
    cond = e.loop_cond(st, a[0])
    out = []
    for x in (0, 1):
        s2 = st.clone()
        if not e.assume(s2, a[0], x): continue
        e.loop_branch(s2, a[0], x, cond)
        out.append((s2, C(x)))
    return out

@pat(CONT + r'::(push|push_back|push_front|push_str)')
def m_push(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    old = e.rd(st, l)
    e.on_event(st, 'push', d['m'], l, old, a[1])
    v = e.grown(st, old, d['m'])
    e.on_write(st, l, v)
    e.write(st, l, v)
    return [(st, UNIT)]

@pat(CONT + r'::(pop|pop_back|pop_front|swap_remove|remove)')
def m_pop(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    old = e.rd(st, l)
    m = d['m']
    f = e.known(st, ('s', ('call', 'is_empty', old)))
    e.pop_known = f[0] == 'c'
    out = []
    if m in ('swap_remove', 'remove') and 'VecDeque' not in d['p']:
        el = st.fresh(('elem',))
        e.on_event(st, 'pop', m, l, old, el, a[1])
        e.write(st, l, e.shrunk(st, old, m))
        return [(st, el)]
    if f != C(1):
        s2 = st.clone()
        el = s2.fresh(('elem',))
        e.on_event(s2, 'pop', m, l, old, el)
        e.write(s2, l, e.shrunk(s2, old, m))
        out.append((s2, some(el)))
    if f != C(0):
        st.facts[('call', 'is_empty', old)] = ('=', 1)
        st.facts[('call', 'len', old)] = ('=', 0)
        e.on_event(st, 'pop', m, l, old, None)
        out.append((st, none()))
    return out

RANGES = {'core::ops::range::Range': (0, 1), 'core::ops::range::RangeFrom': (0, None), 'core::ops::range::RangeTo': (None, 0), 'core::ops::range::RangeFull': (None, None),
          'core::ops::range::RangeToInclusive': (None, 0)}

def subslice(e, st, p, lo, hi):
    """pointer to elements lo..hi (None: the end) of what p points to"""
    base = content(e, st, p)
    ln = e.known(st, ('s', ('call', 'len', base)))
    if e.known(st, lo) == C(0) and hi in (None, ln): return p
    b = base[1] if base[0] == 's' else None
    if isinstance(b, tuple) and len(b) == 2 and b[1] == '*' and isinstance(b[0], tuple) and b[0][:2] == ('call', 'slice'):
        # a slice of a slice
        _, _, base, lo0, hi0 = b[0]
        hi = hi0 if hi in (None, ln) else e.binop(st, 'Add', lo0, hi, ('chk', e.cur_line))
        lo = e.binop(st, 'Add', lo0, lo, ('chk', e.cur_line))
    elif hi is None: hi = ln
    return ('s', ('call', 'slice', base, lo, hi))

@pat(r'core::slice::<impl \[T\]>::(split_at|split_at_mut)')
def m_split_at(e, st, d, a, at, dt):
    if not e.slices: return None
    return [(st, struct(subslice(e, st, a[0], C(0), a[1]), subslice(e, st, a[0], a[1], None)))]

@pat(r'core::(slice::index|str::traits)::<impl core::ops::index::Index(Mut)?<I> for (\[T\]|str)>::(index|index_mut)|<alloc::(vec::Vec<T, A>|string::String) as core::ops::index::Index(Mut)?<I>>::(index|index_mut)')
def m_index(e, st, d, a, at, dt):
    if not e.slices or len(at) < 2 or at[1] is None: return None
    r = RANGES.get(e.db.tys[at[1]].get('def'))
    if r is None: return None
    f = lambda i: e.known(st, e.step_value(st, a[1], (0, i)))
    lo = C(0) if r[0] is None else f(r[0])
    hi = None if r[1] is None else f(r[1])
    if 'Inclusive' in e.db.tys[at[1]]['def']: hi = e.binop(st, 'Add', hi, C(1), ('chk', e.cur_line))
    return [(st, subslice(e, st, a[0], lo, hi))]

@pat(CONT + r'::drain')
def m_drain(e, st, d, a, at, dt):
    """removal of everything (of a part: opaque)"""
    if len(a) > 1:
        t = e.db.tys[at[1]] if at[1] is not None else {}
        if t.get('def') != 'core::ops::range::RangeFull': return None
    l = e.deref(st, a[0])
    old = e.rd(st, l)
    it = st.fresh(('iter', 'drain'))
    f = st.facts.get(('call', 'is_empty', old))
    if f: st.facts[('call', 'is_empty', it)] = f
    e.on_event(st, 'drain', l, old, it)
    v = st.fresh(('mut', d['m']))
    e.set_len(st, v, 0)
    e.write(st, l, v)
    return [(st, it)]

@pat(CONT + r'::(clear)')
def m_clear(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    old = e.rd(st, l)
    e.on_event(st, 'clear', d['m'], l, old)
    v = st.fresh(('mut', d['m']))
    e.set_len(st, v, 0)
    e.same_name(st, old, v)
    e.write(st, l, v)
    return [(st, UNIT)]

@pat(CONT + r'::(iter|iter_mut|as_ptr|as_mut_ptr|chunks|windows)')
def m_iter(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    k = arr_len(e.rd(st, l))
    if k is not None and d['m'] in ('iter', 'iter_mut'):
        return [(st, arr_iter(l, k))]
    v = st.fresh(('iter', d['m']))
    c = e.rd(st, l)
    iter_from(st, v, c)
    e.on_event(st, 'iter', d['m'], l, v)
    return [(st, v)]

def iter_from(st, it, c):
    """`it` starts at the first element of `c`"""
    f = st.facts.get(('call', 'is_empty', c))
    if f: st.facts[('call', 'is_empty', it)] = f
    elif c[0] == 's': st.facts[('call', 'iterof', it, c)] = ('=', 1)

def iter_src(st, it):
    for k in st.facts:
        if isinstance(k, tuple) and k[0] == 'call' and k[1] == 'iterof' and k[2] == it: return k[3]
    return None

def iter_first(e, st, c, empty):
    """the first step of an iteration over `c` shows whether `c` is empty"""
    k = ('call', 'is_empty', c)
    st.facts[k] = ('=', empty)
    e.link(st, k, empty, True)
    e.on_event(st, 'iter_first', c, empty)

def arr_len(v):
    """number of elements of an array whose elements are all known separately"""
    if v[0] != 'a' or v[1] is not None or v[4] is not None or not v[3]: return None
    if sorted(x[0] for x in v[3] if x[0][0] == 'e') != [('e', ('c', i)) for i in range(len(v[3]))]: return None
    return len(v[3])

def arr_iter(l, k):
    return ('a', ('arriter', k, 0), 0, (((0, 'src'), ('r', l[0], l[1])),), None)

@pat(r"core::array::<impl core::iter::traits::collect::IntoIterator for &.*>::into_iter")
def m_arr_ref_iter(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    k = arr_len(e.rd(st, l))
    if k is None: return m_into_iter(e, st, d, a, at, dt)
    return [(st, arr_iter(l, k))]

@pat(r"core::array::iter::<impl core::iter::traits::collect::IntoIterator for .*>::into_iter")
def m_arr_iter(e, st, d, a, at, dt):
    k = arr_len(a[0])
    if k is None: return m_into_iter(e, st, d, a, at, dt)
    return [(st, ('a', ('arrinto', k, 0), 0, a[0][3], None))]

def arr_next(e, st, l, v):
    kind, k, i = v[1]
    if i >= k: return [(st, none())]
    if kind == 'arriter':
        r = v[3][0][1]
        el = ('r', r[1], r[2] + (('e', ('c', i)),))
        fl = v[3]
    else:
        el = dict(v[3])[('e', ('c', i))]
        fl = tuple((x, y) for x, y in v[3] if x != ('e', ('c', i)))
    e.write(st, l, ('a', (kind, k, i + 1), 0, fl, None))
    return [(st, some(el))]

@pat(r'futures_util::async_await::random::shuffle')
def m_shuffle(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    v = e.rd(st, l)
    k = arr_len(v)
    if k is None: return None
    import itertools
    out = []
    val = dict(v[3])
    for p in itertools.permutations(range(k)):
        s2 = st.clone()
        e.write(s2, l, ('a', None, 0, tuple((('e', ('c', i)), val[('e', ('c', j))]) for i, j in enumerate(p)), None))
        e.on_event(s2, 'shuffle', p)
        out.append((s2, UNIT))
    return out

@pat(r'core::iter::traits::iterator::Iterator::(enumerate|rev|fuse|peekable|copied|cloned|by_ref|zip)')
def m_iter_adapt(e, st, d, a, at, dt):
    v = st.fresh(('iter', d['m']))
    f = st.facts.get(('call', 'is_empty', a[0]))
    if d['m'] != 'zip':
        if f: st.facts[('call', 'is_empty', v)] = f
        else:
            c = iter_src(st, a[0])
            if c is not None: iter_from(st, v, c)
    e.on_event(st, 'iter_adapt', d['m'], a[0], v)
    return [(st, v)]

ITER = r'(core::iter::traits::iterator::Iterator|<(core|alloc)::.* as core::iter::traits::iterator::Iterator>)'

def is_chain(v):
    return v[0] == 'a' and isinstance(v[1], tuple) and v[1][0] == 'chain'

def plain_iter(e, v, ty):
    """an iterator whose elements come from the model of `next`"""
    if is_chain(v) or v[0] == 'a' and isinstance(v[1], tuple) and v[1][0] in ('arriter', 'arrinto'): return True
    t = e.db.tys[ty] if ty is not None else {}
    return v[0] == 's' and not t.get('def', '').startswith(('futures', 'core::iter::sources', 'core::iter::adapters::take::', 'core::iter::adapters::skip::', 'core::ops::range', 'core::option', 'core::array'))

@pat(ITER + r'::(map|filter|filter_map|take_while|map_while|inspect)')
def m_chain(e, st, d, a, at, dt):
    ty = at[1]
    if ty is None or not plain_iter(e, a[0], at[0]): return None
    t = e.db.tys[ty]
    if t['k'] == 'closure' and 'body' in t or t['k'] == 'fndef' and 'fn' in t:
        return [(st, ('a', ('chain', d['m'], ty), 0, (((0, 'f'), a[1]), ((0, 'src'), a[0])), None))]
    return None

@pat(ITER + r'::sum')
def m_sum(e, st, d, a, at, dt):
    if not plain_iter(e, a[0], at[0]) or dt is None or e.db.tys[dt]['s'] not in ('usize', 'u64', 'u32'): return None
    return ('LOOPN', ('sum', None), alloc(st, a[0]), None, C(0))

def new_cont(e, st):
    return m_cont_new(e, st, None, None, None, None)[0][1]

def collects(e, dt):
    t = e.db.tys[dt] if dt is not None else {}
    if t.get('def') == 'alloc::vec::Vec': return True
    return t.get('s', '').startswith('alloc::boxed::Box<[')

@pat(ITER + r'::collect')
def m_collect(e, st, d, a, at, dt):
    if not plain_iter(e, a[0], at[0]) or not collects(e, dt): return None
    return ('LOOPN', ('collect', None), alloc(st, a[0]), None, alloc(st, new_cont(e, st)))

@pat(r'<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend')
def m_extend(e, st, d, a, at, dt):
    if not plain_iter(e, a[1], at[1]): return None
    it = m_into_iter(e, st, d, [a[1]], [at[1]], None)[0][1] if e.db.tys[at[1]]['k'] != 'param' else ('s', ('call', 'into_iter', a[1]))
    return ('LOOPN', ('extend', None), alloc(st, it), None, a[0])

@pat(ITER + r'::(find_map|for_each|any|all|position|find|fold)')
def m_iter_loop(e, st, d, a, at, dt):
    """internal iteration with a known closure: zero or more calls on fresh items"""
    fi = 2 if d['m'] == 'fold' else 1
    ty = at[fi]
    if ty is None or e.db.tys[ty]['k'] != 'closure' or 'body' not in e.db.tys[ty]:
        return None
    it = e.rd(st, e.deref(st, a[0])) if a[0][0] == 'r' else a[0]
    if plain_iter(e, it, at[0]):
        return ('LOOPN', (d['m'], ty), a[0] if a[0][0] == 'r' else alloc(st, it), alloc(st, a[fi]), a[1] if fi == 2 else None)
    f = st.facts.get(('call', 'is_empty', it))
    c = None
    if f is None:
        c = iter_src(st, it)
        if c is not None: f = st.facts.get(('call', 'is_empty', c))
    if f == ('=', 1):
        return [(st, e.loop_end(st, d['m'], a[1]))]
    p = alloc(st, a[fi])
    nonempty = 1 if f == ('=', 0) else 0
    src = a[0]
    if src[0] == 'r': src = e.rd(st, e.deref(st, src))
    return ('LOOP', d['m'], p, ty, nonempty) + ((a[1],) if fi == 2 else (None,)) + (e.vterm(st, src) if hasattr(e, 'vterm') else None, c)

@pat(CONT + r'::(get|get_mut|first|last|first_mut|last_mut|front|front_mut|back|back_mut|peek|peek_mut)')
def m_get(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    old = e.rd(st, l)
    f = e.known(st, ('s', ('call', 'is_empty', old)))
    e.pop_known = f[0] == 'c'
    out = []
    if f != C(1):
        s2 = st.clone()
        el = s2.fresh(('elemptr',))
        if f[0] != 'c':
            s2.facts[('call', 'is_empty', old)] = ('=', 0)
            e.link(s2, ('call', 'is_empty', old), 0, True)
        e.on_event(s2, 'get', d['m'], l, old, el, a[1] if len(a) > 1 else None)
        out.append((s2, some(el)))
    if f != C(0):
        if d['m'] not in ('get', 'get_mut'):
            st.facts[('call', 'is_empty', old)] = ('=', 1)
            st.facts[('call', 'len', old)] = ('=', 0)
        e.on_event(st, 'get', d['m'], l, old, None, a[1] if len(a) > 1 else None)
        out.append((st, none()))
    return out

@pat(r".*as core::iter::traits::iterator::Iterator>::next|.*impl core::iter::traits::iterator::Iterator for .*>::next|core::iter::traits::iterator::Iterator::next")
def m_next(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    if is_chain(e.rd(st, l)): return ('CHAIN', l)
    return next_at(e, st, l)

def next_at(e, st, l):
    old = e.rd(st, l)
    if old[0] == 'a' and old[1] and old[1][0] in ('arriter', 'arrinto'):
        return arr_next(e, st, l, old)
    f = e.known(st, ('s', ('call', 'is_empty', old)))
    c = None
    if f[0] != 'c':
        c = iter_src(st, old)
        if c is not None:
            f = e.known(st, ('s', ('call', 'is_empty', c)))
            if f[0] == 'c': c = None
    out = []
    if f != C(1):
        s2 = st.clone()
        if c is not None: iter_first(e, s2, c, 0)
        el = s2.fresh(('item',))
        e.on_event(s2, 'iter_next', l, old, el)
        n = s2.fresh(('mut', 'next'))
        e.same_name(s2, old, n)
        e.write(s2, l, n)
        out.append((s2, some(el)))
    if f != C(0):
        if c is not None: iter_first(e, st, c, 1)
        e.on_event(st, 'iter_next', l, old, None)
        out.append((st, none()))
    return out

U64 = (1 << 64) - 1

def big(v):
    """usize::MAX and its neighbours behave as 'large' in checked/saturating arithmetic"""
    return v[0] == 'c' and v[1] > (1 << 40)

def fork(e, st, c, f0, f1):
    """the outcomes of a test, as a branch in the source would have them"""
    if c[0] == 'c': return [(st, (f1 if c[1] else f0)(st))]
    out = []
    cond = e.loop_cond(st, c)
    for n, f in ((0, f0), (1, f1)):
        s2 = st.clone()
        if e.assume(s2, c, n):
            e.loop_branch(s2, c, n, cond)
            out.append((s2, f(s2)))
    return out

@pat(r'(core::num|core::num::nonzero)::(<impl .*>|NonZero::<T>)::(checked_add|checked_sub|checked_mul)')
def m_checked(e, st, d, a, at, dt):
    op = {'checked_add': 'Add', 'checked_sub': 'Sub', 'checked_mul': 'Mul'}[d['m']]
    x, y = e.known(st, a[0]), e.known(st, a[1])
    if x[0] == 'c' and y[0] == 'c':
        r = {'Add': x[1] + y[1], 'Sub': x[1] - y[1], 'Mul': x[1] * y[1]}[op]
        if 0 <= r <= U64:
            return [(st, some(e.binop(st, op, x, y, ('chk', e.cur_line))))]
        return [(st, none())]
    if op in ('Add', 'Sub') and y == C(0): return [(st, some(x))]
    if op == 'Add' and x == C(0): return [(st, some(y))]
    if op == 'Sub' and not e.signed_ty(at[0]):
        return fork(e, st, e.cmp(st, 'Lt', x, y), lambda s: some(e.binop(s, op, x, y, ('chk', e.cur_line))), lambda s: none())
    s2 = st.clone()
    v = e.binop(st, op, x, y, ('chk', e.cur_line))
    return [(st, some(v)), (s2, none())]

@pat(r'(core::num)::<impl .*>::(saturating_add|saturating_sub|wrapping_add|wrapping_sub|min|max)')
def m_arith(e, st, d, a, at, dt):
    x, y = e.known(st, a[0]), e.known(st, a[1])
    m = d['m']
    if x[0] == 'c' and y[0] == 'c':
        if m == 'saturating_sub': return [(st, C(max(0, x[1] - y[1])))]
        if m in ('min', 'max'): return [(st, C({'min': min, 'max': max}[m](x[1], y[1])))]
        if m == 'saturating_add':
            r = x[1] + y[1]
            return [(st, C(U64) if r > U64 else e.binop(st, 'Add', x, y, ('chk', e.cur_line)))]
        if m == 'wrapping_add': return [(st, e.binop(st, 'Add', x, y, ('chk', e.cur_line)) if x[1] + y[1] <= U64 else C((x[1] + y[1]) & U64))]
        if m == 'wrapping_sub': return [(st, C((x[1] - y[1]) & U64))]
    if y == C(0) and m in ('saturating_add', 'saturating_sub', 'wrapping_add', 'wrapping_sub'): return [(st, x)]
    if x == C(0) and m in ('saturating_add', 'wrapping_add'): return [(st, y)]
    if m in ('min', 'max'): return minmax(e, st, m, x, y)
    if m == 'saturating_sub': return fork(e, st, e.cmp(st, 'Lt', x, y), lambda s: e.binop(s, 'Sub', x, y, ('chk', e.cur_line)), lambda s: C(0))
    return [(st, ('s', ('call', m, x, y)))]

@model('core::num::nonzero::NonZero::<T>::get')
def m_nz_get(e, st, d, a, at, dt):
    x = e.known(st, a[0])
    if x[0] == 'c': return [(st, x)]
    v = ('s', ('call', 'nzget', a[0]))
    f = st.facts.get(v[1])
    if f is None:
        st.facts[v[1]] = ('!=', frozenset([0]))
    return [(st, e.known(st, v))]

@model('core::num::nonzero::NonZero::<T>::new')
def m_nz_new(e, st, d, a, at, dt):
    x = e.known(st, a[0])
    return fork(e, st, e.cmp(st, 'Eq', x, C(0)), lambda s: some(x), lambda s: none())

@pat(r'core::cmp::(min|max)|core::cmp::Ord::(min|max)|core::cmp::impls::<impl core::cmp::Ord for u(size|64|32|8)>::(min|max)|core::intrinsics::integer_(min|max)')
def m_minmax(e, st, d, a, at, dt):
    m = d['m'].replace('integer_', '')
    x, y = e.known(st, a[0]), e.known(st, a[1])
    if x[0] == 'c' and y[0] == 'c':
        return [(st, C({'min': min, 'max': max}[m](x[1], y[1])))]
    return minmax(e, st, m, x, y)

def minmax(e, st, m, x, y):
    if x == y: return [(st, x)]
    if m == 'min' and C(0) in (x, y): return [(st, C(0))]
    if m == 'max' and C(0) in (x, y): return [(st, y if x == C(0) else x)]
    lo, hi = (lambda s: y), (lambda s: x)
    if m == 'max': lo, hi = hi, lo
    return fork(e, st, e.cmp(st, 'Lt', x, y), lo, hi)

@pat(r'.* as core::iter::traits::collect::IntoIterator>::into_iter|core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &.*>::into_iter')
def m_into_iter(e, st, d, a, at, dt):
    v = a[0]
    if is_chain(v): return [(st, v)]
    if v[0] == 's' and at and at[0] is not None and re.search(r'^core::iter::|::(Iter|IterMut|IntoIter|Drain)$', e.db.tys[at[0]].get('def', '')): return [(st, v)]
    n = st.fresh(('iter', 'into_iter'))
    ref = v[0] == 'r' or v[0] == 's' and at and at[0] is not None and e.db.tys[at[0]]['k'] == 'ref'
    c = e.rd(st, e.deref(st, v)) if ref else v
    iter_from(st, n, iter_src(st, c) or c)
    e.on_event(st, 'into_iter', v, n)
    return [(st, n)]

@pat(r'core::cmp::PartialEq::ne|<.* as core::cmp::PartialEq(<.*>)?>::ne')
def m_ne(e, st, d, a, at, dt):
    """the negation of `eq`"""
    if d.get('k') is not None: return None
    d2 = dict(d, m='eq', p=d['p'][:-2] + 'eq')
    return ('TAIL', 'w_not', None, d2, a, at, dt)

@pat(r'.*as core::clone::Clone>::clone|core::clone::Clone::clone')
def m_clone(e, st, d, a, at, dt):
    l = e.deref(st, a[0])
    v = e.rd(st, l)
    e.on_event(st, 'clone', d['a'][0], v, l)
    if v[0] in ('c', 'r', 'fn') or (v[0] == 'a' and not v[3] and v[4] is None):
        return [(st, v)]
    return [(st, st.fresh(('clone',)))]
