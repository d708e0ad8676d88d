from registry import T, P, TASKS

S = 'engine.c'
ENG = ('Contracts on the engine functions (specs/engine.h) discharged function by function for every state, argument and '
       'iteration; callers are checked against callee contracts. Assumes: a well formed configuration (established by the parser), '
       'no external side effects of the callbacks on the engine, fork/exec not modelled, termination not proved. ')


def native(want, crash='assert'):
    return dict(kind='engine', want=want, crash=crash)


P('K01', ENG + 'overload() whose tap action is itself deferred (timeout/overload*) is excluded: recorded as a known finding.', native=native('K01'))
P('K02', ENG + 'overload() whose tap action is itself deferred (timeout/overload*) is excluded: recorded as a known finding.', native=native('K02'))
P('K03', ENG + 'Modifiers pressed by a modifier group inside a macro go to the device past the engine (process_descriptor is not held to agreement for macro, clearm, swap2 and overload tap actions).', native=native('K03'))
AGREE = {(1, 1), (1, 0), (7, 1), (7, 0), (4, 1), (4, 0), (2, 1), (3, 1), (10, 1), (11, 1), (15, 1), (16, 1), (19, 1)}
T(S, 'kvt_set_mods', 'K03', enforce='set_mods')
T(S, 'kvt_update_mods', 'K03', enforce='update_mods', replace='set_mods', jobs=2)
T(S, 'kvt_deactivate_layer', '', enforce='deactivate_layer')
T(S, 'kvt_get_time', '', proves='get_time')
T(S, 'kvt_activate_layer', 'K01 K04', enforce='activate_layer', replace='get_time')
T(S, 'kvt_schedule_timeout', 'K10', enforce='schedule_timeout', cuts={'schedule_timeout': 'all-nt'}, inv_timeout=20)
T(S, 'kvt_calculate_main_loop_timeout', 'K10', enforce='calculate_main_loop_timeout', cuts={'calculate_main_loop_timeout': 'all-nt'}, inv_timeout=20)
T(S, 'kvt_execute_macro', 'K02', enforce='execute_macro', replace='update_mods,macro_execute')
T(S, 'kvt_clear_oneshot', 'K02 K09', enforce='clear_oneshot', replace='deactivate_layer', cuts={'clear_oneshot': 'all'}, cost=9)
T(S, 'kvt_reset_keystate', '', enforce='reset_keystate')
T(S, 'kvt_clear', '', enforce='clear', replace='deactivate_layer,clear_oneshot,reset_keystate', jobs=4, cost=10)
T(S, 'kvt_setlayout', 'K01 K02 K04', enforce='setlayout', replace='clear', jobs=6, cost=15)

PDR = 'set_mods,update_mods,deactivate_layer,clear_oneshot,clear,setlayout,activate_layer,schedule_timeout,execute_macro,execute_command,process_descriptor'
SWAPS = (5, 6)
for op in range(0, 23):
    for pressed in (0, 1):
        if op in SWAPS and pressed:
            # one task per outcome of the search for the key that holds the layer
            for which in range(0, 19):
                T(S, 'kvt_process_descriptor', 'K01 K02 K09 K10', enforce='process_descriptor', replace=PDR, cost=14,
                  params={0: op, 1: pressed, 2: which, 8: 2 if which >= 3 else 1})
        else:
            T(S, 'kvt_process_descriptor', 'K01 K02 K09 K10' + (' K03' if (op, pressed) in AGREE else ''), enforce='process_descriptor', replace=PDR,
              cost=60 if (op, pressed) in ((11, 0), (14, 1)) else 20, jobs=4 if (op, pressed) in ((11, 0), (14, 1)) else 1,
              params={0: op, 1: pressed, 8: 1})

# ---- K04
P('K04', ENG + 'lookup_descriptor is proved against an independent statement of the precedence rule.', native=native('K04'))
T(S, 'kvt_lookup_descriptor', 'K04', enforce='lookup_descriptor', cuts={'lookup_descriptor': 'all-nt'}, cost=30, jobs=4)

# ---- events
CLAIM_K05 = False
if CLAIM_K05:
    P('K05', ENG + 'process_event is proved to act once, and with the recorded action; that a chord or a pending key hands its events over intact is not proved (handle_chord and handle_pending_key are assumed to keep the engine invariant).', native=native('K05'))
P('K09', ENG + 'expiry is proved of process_event.')
P('K10', ENG + 'More than 64 deadlines at a time are excluded (the most distant ones are then given up).', native=native('K10'))
PER = 'handle_chord,handle_pending_key,clear_oneshot,update_mods,execute_macro,schedule_timeout,lookup_descriptor,process_descriptor,calculate_main_loop_timeout'
for pressed in (0, 1, 2):
    for by in (1, 2, 3):
        T(S, 'kvt_process_event', ('K05' if CLAIM_K05 else '') + (' K09 K10' if pressed == 2 else ''), enforce='process_event', replace=PER, cost=400 if by == 3 and pressed < 2 else 5,
          jobs=6 if by == 3 else 1, params={1: pressed, 3: by, 8: 3})

# clauses common to all properties of one function are discharged by one check (quick tier), see DESIGN.md
for t in TASKS:
    if t.spec == S:
        t.owner = 'K09' if t.fn in ('kvt_process_event', 'kvt_schedule_timeout', 'kvt_calculate_main_loop_timeout') else 'K01'
