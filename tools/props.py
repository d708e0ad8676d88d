"""Source of properties.jsonl: run `python3 tools/props.py` after editing."""
import json
import os

P = []


def p(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


K = ['src/keyboard.c', 'src/keyboard.h']
TEST = 'The .t files drive one fixed configuration through about 85 scripted sequences'

p('K01', 'Layer activations and deactivations are balanced',
  'A layer counts as active exactly as often as something still in force keeps it active: being toggled, being a pending oneshot, or being held by a pressed key '
  '(the base layer counts once more). Carrying out any action, on press or on release, keeps this so: a layer is never deactivated more often than it was activated, '
  'and none stays active once nothing keeps it active. Layer listeners are told of every change.',
  ['inputs', 'histories', 'configurations'], 'every action with any arguments, in any state reachable by presses, releases, toggles, oneshots, swaps and clears, for every layer and configuration',
  TEST + '; stuck or prematurely dropped layers need combinations of swap, toggle, oneshot and overload on several keys that no test lists.',
  K, [('activate_layer', 'src/keyboard.c'), ('deactivate_layer', 'src/keyboard.c'), ('process_descriptor', 'src/keyboard.c'), ('clear', 'src/keyboard.c'), ('clear_oneshot', 'src/keyboard.c')],
  [('layer_state[].active/toggled/oneshot_depth', 'activation counters', 'src/keyboard.h'), ('cache[].layer', 'layer a held key activated', 'src/keyboard.h')], ['output->on_layer_change'])
p('K02', 'No output key is left held',
  'The virtual device never holds a key down that nothing accounts for: after any action, on press or release, an output key that is down is a modifier of an active layer or of a key still held, or is the target of a key still held. '
  'Whatever the engine believes to be released is released on the device.',
  ['inputs', 'histories', 'configurations'], 'every action with any arguments in any reachable state, every output key',
  TEST + ' and compare output; a stuck key shows only for particular overlaps of keys, layers and macros.',
  K + ['src/macro.c'], [('send_key', 'src/keyboard.c'), ('set_mods', 'src/keyboard.c'), ('update_mods', 'src/keyboard.c'), ('process_descriptor', 'src/keyboard.c'), ('reset_keystate', 'src/keyboard.c')],
  [('keystate[]', 'what the engine believes is down', 'src/keyboard.h')], ['output->send_key'])
p('K03', 'Output modifiers are exactly the ones in force',
  'When a key is sent for a key mapping, the modifiers down are those of the mapping together with those of the active layers other than the one the mapping came from (and its constituents, for a composite layer), and no others. '
  'When the mapping is released, a layer or layerm key is pressed or released, or an overload, toggle, togglem, command or clearm key is pressed (a clearm macro without modifier groups), they are exactly the modifiers of the layers then active; on the press of a oneshot or oneshotm key '
  'they are those of the active layers other than the one the mapping came from. The virtual device agrees with the engine about which modifiers are down, unless a modifier group inside a macro has made them differ before.',
  ['inputs', 'histories', 'configurations'], 'every key mapping and layer action, every set of active layers and layer modifiers',
  TEST + ' with a handful of modifier layers; the number of layer/modifier combinations is unbounded.',
  K, [('set_mods', 'src/keyboard.c'), ('update_mods', 'src/keyboard.c'), ('process_descriptor', 'src/keyboard.c')], [], ['output->send_key'])
p('K04', 'A key resolves to the newest active layer that binds it',
  'The action chosen for a key is the binding of the active layer activated most recently among those that bind the key, except that a composite layer whose constituents are all active takes precedence over every non-composite layer (the one with the most constituents first). '
  'A key no active layer binds stands for itself (in the main layer), and the layer reported is the one the binding came from.',
  ['inputs', 'histories', 'configurations'], 'every key, every set of active layers with any activation order, every configuration of up to 32 layers',
  TEST + ' with few layers active at a time; the precedence rule is over all sets and orders of active layers.',
  K, [('lookup_descriptor', 'src/keyboard.c'), ('activate_layer', 'src/keyboard.c')], [('layer_state[].activation_time', 'order of activation', 'src/keyboard.h')], [])
p('K05', 'A release undoes the action of its own press',
  'This is about key events that are not held back by an undecided key or taken up by a chord. A key press that is not on record yet is put on record with the action and layer it resolves to, and is carried out exactly once with these; it is not carried out if it cannot be put on record, and a press of a key already on record is not acted on. '
  'A key release carries out the release of the very action and layer on record for its press, no matter which layers became active or inactive in between, exactly once, and takes it off the record; a release of a key whose press is not on record does nothing. The passing of time alone presses and releases no key, and none of these events touches the record of another key.',
  ['histories', 'inputs', 'configurations'], 'every interleaving of up to 16 held keys and every layer change between press and release',
  TEST + '; pairing has to hold for every interleaving of keys and layer changes.',
  K, [('cache_set', 'src/keyboard.c'), ('cache_get', 'src/keyboard.c'), ('process_event', 'src/keyboard.c')], [('cache[]', 'held keys and their actions', 'src/keyboard.h')], [])
p('K06', 'Events held back are replayed in order, once',
  'While a tap/hold or chord decision is open, key events are held back; once it is decided, every one of them is handed on exactly once, in arrival order and with its own time, and none is lost or invented however many there are.',
  ['histories', 'schedules', 'inputs'], 'every sequence and number of events arriving while a decision is open',
  TEST + ' with at most a few events pending; the queues overflow and wrap only with many.',
  K, [('handle_pending_key', 'src/keyboard.c'), ('resolve_chord', 'src/keyboard.c'), ('abort_chord', 'src/keyboard.c'), ('kbd_process_events', 'src/keyboard.c')],
  [('pending_key.queue, chord.queue', 'held back events', 'src/keyboard.h')], [])
p('K07', 'Tap/hold keys decide by the documented rule',
  'A tap/hold key acts as held once its timeout passes while it is still down; otherwise it acts as tapped when released first, or according to its mode when another key is pressed (at once) or tapped within the window. It decides exactly once, and always within its timeout.',
  ['schedules', 'histories', 'inputs'], 'every timing and interleaving of the tap/hold key with other keys',
  TEST + ' with a few timings; the rule is over all timings.',
  K, [('handle_pending_key', 'src/keyboard.c'), ('process_descriptor', 'src/keyboard.c')], [('pending_key', 'the undecided key', 'src/keyboard.h')], [])
p('K08', 'A chord fires only for exactly its keys',
  'A chord matches when, and only when, all of its keys are down together within the chord window and no key outside it is; a strict subset is only a partial match, and of several chords that match the one in the most recently activated layer is chosen.',
  ['inputs', 'histories', 'configurations'], 'every set of held keys and every set of chords over the active layers',
  TEST + ' with a handful of chords.',
  K, [('chord_event_match', 'src/keyboard.c'), ('check_chord_match', 'src/keyboard.c'), ('handle_chord', 'src/keyboard.c')], [('chord.queue', 'keys of the chord so far', 'src/keyboard.h')], [])
p('K09', 'A oneshot layer lasts for one key',
  'Pressing a oneshot key activates its layer. If nothing has used the oneshot up by the time the key is released, the layer stays active, pending, with its deadline (where one is configured) counting from that release; otherwise the layer ends with the key. '
  'Pressing a key that carries out a key mapping, macro, toggle, command, clear or layout uses up every pending oneshot: the number of activations of each layer drops by exactly its pending oneshots (a toggle, clear or layout then does what it does), and a oneshot key still held will not become pending. So does the passing of the oneshot deadline, at the next event, before that event is acted on. '
  'Layer, scroll and tap/hold keys, and releases of keys other than oneshot keys and overload keys, leave pending oneshots and their deadline alone.',
  ['histories', 'inputs', 'configurations'], 'every action in any state: every number and mixture of pending oneshot, toggled and held activations, every time',
  TEST + ' with one or two oneshots pending.',
  K, [('clear_oneshot', 'src/keyboard.c'), ('process_descriptor', 'src/keyboard.c'), ('process_event', 'src/keyboard.c')], [('layer_state[].oneshot_depth', 'pending oneshots', 'src/keyboard.h')], [])
p('K10', 'The engine never sleeps past a deadline',
  'Every deadline an action sets (tap/hold decisions of timeout(), overloadt() and overloadt2(), repetition of a macro, expiry of a pending oneshot) is scheduled for the time the action asks for, and a repeating macro is rescheduled after its interval each time it repeats. '
  'The time the engine asks to be woken after is never later than its earliest outstanding deadline, and it asks not to be woken only if there is none. Deadlines that have passed are forgotten, all others are kept (if more than 64 are outstanding, only the most distant are given up).',
  ['schedules', 'histories', 'inputs'], 'every action in any state, every set of up to 64 outstanding deadlines and every time',
  TEST + ' with one or two deadlines at a time.',
  K, [('schedule_timeout', 'src/keyboard.c'), ('calculate_main_loop_timeout', 'src/keyboard.c'), ('process_descriptor', 'src/keyboard.c'), ('process_event', 'src/keyboard.c')], [('timeouts[]', 'outstanding deadlines', 'src/keyboard.h')], ['return value of kbd_process_events'])
p('K11', 'A macro types exactly what it says and holds nothing after',
  'Running a macro emits its entries in order, each key of a sequence pressed with exactly its modifiers around it and released again; keys held by a group are pressed once and released by its end. Afterwards no key is down that was not down before.',
  ['inputs', 'configurations'], 'every macro of up to 256 entries',
  TEST + ' with few macros, none of which is checked for keys left down with every combination of groups.',
  ['src/macro.c', 'src/macro.h', 'src/keyboard.c'], [('macro_execute', 'src/macro.c'), ('execute_macro', 'src/keyboard.c')], [], ['output callback'])
p('K12', 'The engine never reads or writes outside its state',
  'For every configuration the parser can produce and every sequence of key events, actions access only valid layers, macros, commands, keys and queue slots: no out-of-bounds access, no dangling pointer and no aborted assertion.',
  ['inputs', 'histories', 'configurations'], 'every well formed configuration, every action, every state',
  TEST + ' without bounds checking; the daemon runs as root and holds the keyboard, so a crash locks the user out.',
  K, [('process_descriptor', 'src/keyboard.c'), ('kbd_process_events', 'src/keyboard.c')], [], [])
p('C01', 'Key expressions mean what they say',
  'Parsing a key expression succeeds exactly for a sequence of modifier prefixes followed by a key name, an alternative name or a shifted character, and yields that key with exactly the named modifiers (plus shift for a shifted character); anything else is rejected. No input makes the parser read or write out of bounds.',
  ['inputs'], 'every byte string', 'The tests only use valid expressions.',
  ['src/keys.c', 'src/keys.h'], [('parse_key_sequence', 'src/keys.c')], [], [])
p('C02', 'Macro expressions translate faithfully and within bounds',
  'Parsing a macro expression yields its keys, groups, pauses and characters in order, or reports an error; it never produces more entries than a macro can hold and never reads or writes outside its buffers, for any text.',
  ['inputs'], 'every byte string', 'The tests only use short, valid macros.',
  ['src/macro.c', 'src/string.c', 'src/unicode.c'], [('macro_parse', 'src/macro.c'), ('str_escape', 'src/string.c')], [], [])
p('C03', 'No configuration text can corrupt the daemon',
  'Whatever bytes a configuration file or a runtime binding contains, parsing it either succeeds or reports an error: it never reads or writes outside its buffers, aborts or loops, and a configuration it accepts refers only to layers, macros, commands and nested actions that exist.',
  ['inputs', 'configurations'], 'every byte string', 'The tests parse one valid file.',
  ['src/config.c', 'src/ini.c', 'src/string.c'], [('config_add_entry', 'src/config.c'), ('parse_descriptor', 'src/config.c'), ('ini_parse_string', 'src/ini.c'), ('parse_fn', 'src/config.c')], [], [])
p('C04', 'A rejected runtime binding changes nothing',
  'A binding applied to a running keyboard either takes effect completely or, when it is rejected, leaves every layer, binding, macro and command as it was; reset restores the configuration read from the file.',
  ['inputs', 'histories'], 'every binding expression in every configuration', 'Only exercised over the socket, never by the tests.',
  ['src/keyboard.c', 'src/config.c'], [('kbd_eval', 'src/keyboard.c'), ('config_add_entry', 'src/config.c')], [], [])
p('C05', 'A configuration claims exactly the devices its ids say',
  'Going through the ids of a configuration in order, the first that is a prefix of the device\'s id and is either an exclusion or meant for a kind of device it is (keyboard, mouse) decides: an exclusion rejects the device, any other id claims it. A device no id decides is claimed by a wildcard configuration only. Of several configurations the first that names the device wins, otherwise the first wildcard; a wildcard never claims a device that is only a mouse.',
  ['inputs', 'configurations'], 'every list of ids and every device', 'The tests never load device ids.',
  ['src/config.c'], [('config_check_match', 'src/config.c'), ('lookup_config_ent', 'src/daemon.c')], [], [])
p('U01', 'Unicode characters are decoded and typed correctly',
  'Every well formed UTF-8 character is decoded to its code point and length, ill formed or truncated text is never read past its end and stands for no character. A character is typed as cancel followed by the three base 36 digits of its index in the table, key by key, pressed and released in order; text typed for a client leaves no key down.',
  ['inputs'], 'every byte string and every code point', 'The tests type a few characters.',
  ['src/unicode.c', 'src/string.c'], [('utf8_read_char', 'src/string.c'), ('unicode_get_sequence', 'src/unicode.c'), ('unicode_lookup_index', 'src/unicode.c')], [], [])
p('D01', 'The panic sequence always terminates the daemon',
  'Pressing backspace, escape and enter together, in any order and whatever else is held, ends the daemon, and nothing short of all three down together does.',
  ['histories', 'inputs'], 'every sequence of key events', 'The daemon loop is not run by the tests.',
  ['src/evloop.c'], [('panic_check', 'src/evloop.c'), ('evloop', 'src/evloop.c')], [], [])
p('D02', 'Input events are translated faithfully',
  'Each key event of a grabbed device is delivered once with the key it stands for and its press state, repeats are dropped, relative and absolute motion keeps its value, and events without a meaning are ignored; no event makes the daemon read or write out of bounds or divide by zero.',
  ['inputs', 'histories'], 'every input event record', 'Needs a real device; never run by the tests.',
  ['src/device.c'], [('device_read_event', 'src/device.c')], [], [])
p('D03', 'USB HID reports state exactly the keys that are down',
  'In the usb-gadget backend, the report sent after any sequence of key presses and releases lists exactly the modifiers and up to six keys that are down, each once.',
  ['histories', 'inputs'], 'every sequence of key events', 'The backend is only compiled, never run, by the tests.',
  ['src/vkbd/usb-gadget.c'], [('update_key_state', 'src/vkbd/usb-gadget.c'), ('update_modifier_state', 'src/vkbd/usb-gadget.c')], [], [])
p('D04', 'No client can corrupt or block the daemon',
  'Whatever a client sends over the control socket, the daemon handles at most one bounded message, never reads or writes outside it, and goes on serving: it does not exit, does not wait for ever for a client that sends nothing or does not read, limits the pauses a client can ask for to a second each, and either closes the connection exactly once, after at most one reply, or keeps it as a listener.',
  ['inputs', 'fault_sequences'], 'every message and every short read', 'The socket is not used by the tests.',
  ['src/daemon.c', 'src/util.c'], [('xread', 'src/util.c'), ('handle_client', 'src/daemon.c'), ('input', 'src/daemon.c')], [], [])
p('D05', 'Layer listeners see every layer change in order',
  'A client listening for layer changes first gets the layout and the other layers in force and then one line per activation or deactivation (+layer, -layer, or /layout), in order and unabridged; a listener that does not accept a line in full is dropped once and never written to again, and the others stay, in order.',
  ['histories', 'fault_sequences'], 'every sequence of layer changes and of listener failures', 'Listeners are not used by the tests.',
  ['src/daemon.c'], [('on_layer_change', 'src/daemon.c'), ('add_listener', 'src/daemon.c')], [], [])
p('D06', 'Every device belongs to the configuration that claims it',
  'A physical device some configuration claims is grabbed once and handed to the best matching configuration; one none claims, or that cannot be grabbed, is not remapped, and one none claims is let go; virtual devices are never grabbed. Every event read from a device is handed on exactly once, a device that is removed is reported once and no longer read, and every other device stays in use.',
  ['histories', 'schedules'], 'every order of plug, unplug and reload events', 'Needs real devices.',
  ['src/daemon.c', 'src/evloop.c', 'src/device.c'], [('manage_device', 'src/daemon.c'), ('evloop', 'src/evloop.c')], [], [])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
