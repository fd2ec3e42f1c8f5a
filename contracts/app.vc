@area app
@spec vx_app /verif/contracts/app_spec.rs

@module crate
@world crate::vx_app::VxApp
@shim application::run application::run world
@fn run(config_filename)
@props C28
    requires
        crate::vx_app::nothing_runs(*old(vx_w)),
        crate::settings::in_force(config_filename@) is Some,
        crate::vx_app::startable(crate::settings::in_force(config_filename@)->Some_0),
    ensures
        crate::vx_app::up(*final(vx_w), crate::settings::in_force(config_filename@)->Some_0), //@ C28

@module application
@use crate::vx_prelude::*
@use crate::vx_app::*
@world crate::vx_app::VxApp
@append
broadcast use {group_strings, group_convert, vstd::std_specs::vec::group_vec_axioms};
@fn run(config_filename)
@props C28
@tasks
@until ctrl_c
    requires
        nothing_runs(*old(vx_w)),
        crate::settings::in_force(config_filename@) is Some,
        startable(crate::settings::in_force(config_filename@)->Some_0),
    ensures
        up(*final(vx_w), crate::settings::in_force(config_filename@)->Some_0), //@ C28
@enter
    let ghost s0 = crate::settings::in_force(config_filename@)->Some_0;
@before 1
    let ghost w1 = *vx_w;
@loop 1 for
    invariant
        vx_it1.seq().len() == s0.mqtt.listeners_tcp@.len(), //@ C28
        (forall|i: int| 0 <= i < vx_it1.seq().len() ==> (#[trigger] vx_it1.seq()[i])@ == s0.mqtt.listeners_tcp@[i]@)
            || (forall|i: int| 0 <= i < vx_it1.seq().len() ==> (#[trigger] vx_it1.seq()[i])@ == s0.mqtt.listeners_tcp@[vx_it1.seq().len() - 1 - i]@), //@ C28
        vx_w.handlers == w1.handlers, //@ C28
        vx_w.services == w1.services, //@ C28
        vx_w.listeners.len() == vx_it1.index@, //@ C28
        forall|i: int| 0 <= i < vx_w.listeners.len() ==> #[trigger] bound_to(vx_w.listeners[i].socket_v()) == vx_it1.seq()[i]@, //@ C28
        forall|i: int| 0 <= i < vx_w.listeners.len() ==> chan((#[trigger] vx_w.listeners[i]).tx_v()) == chan_of(vx_w.handlers[0].rx_v()), //@ C28
        forall|i: int| 0 <= i < vx_w.listeners.len() ==> signal_of((#[trigger] vx_w.listeners[i]).stop_v()) == signal_of(vx_w.handlers[0].stop_v()), //@ C28
@after 1
    proof {
        assert forall|i: int| 0 <= i < s0.mqtt.listeners_tcp@.len() implies served_at(*vx_w, (#[trigger] s0.mqtt.listeners_tcp@[i])@) by {
            assert(vx_w.listeners.len() == s0.mqtt.listeners_tcp@.len());
            let n = vx_w.listeners.len() as int;
            let (x, y) = (bound_to(vx_w.listeners[i].socket_v()), bound_to(vx_w.listeners[n - 1 - i].socket_v()));
            assert(x == s0.mqtt.listeners_tcp@[i]@ || y == s0.mqtt.listeners_tcp@[i]@); //@ C28
        }
    }
