from registry import T, P


def unit(src, *sources, **kw):
    return dict(kind='unit', src=src, sources=sources, **kw)


# ---- evloop.c
P('D01', 'panic_check proved for every sequence of key events (its static state by an invariant found over the loop of a driver), and the event loop '
  'proved to show it every key event before anything acts on it. Assumes: poll, device_read_event and the handler behave as their stubs in specs/evl.c.',
  native=unit('evl_fuzz.c'))
T('evl.c', 'kvt_panic', 'D01', proves='panic_check', cuts={'kvs_drive': 'all'}, init_globals=('*',))
T('evl.c', 'kvt_evloop', 'D01', proves='evloop', replace='panic_check', cuts={'evloop': 'all-nt'}, init_globals=('log_level',), cost=30, jobs=2)

# ---- vkbd/usb-gadget.c
P('D03', 'Contract on vkbd_send_key for every report state and event (helpers inlined); the report is observed at write(2), assumed to succeed.', native=unit('usb_fuzz.c'))
T('usb.c', 'kvt_vkbd_send_key', 'D03', enforce='vkbd_send_key')
T('usb.c', 'kvt_usb_init', 'D03', proves='initial state', init_globals=('*',))

# ---- daemon.c, config.c: which device is whose
DMN = dict(init_globals=('log_level',))
DMNF = unit('dmn_fuzz.c', 'ini.c', 'keys.c', 'macro.c', 'unicode.c')
P('C05', 'config_check_match proved for every list of ids, lookup_config_ent for up to 4 configurations (bounded). Assumes: strstr as specified in specs/cfgm.c '
  '(a hit at the start of the device id iff the configured id is a prefix); how ids are read from the file is not covered.', native=DMNF)
T('cfgm.c', 'kvt_check_match', 'C05', enforce='config_check_match', cuts={'config_check_match': 'all-nt'})
T('dmn.c', 'kvt_lookup', 'C05 D06', proves='lookup_config_ent', bounded='lookup_config_ent (dmn.c): at most 4 configurations in the list', **DMN)
P('D06', 'manage_device and evloop proved for every device table and event sequence; lookup_config_ent for up to 4 configurations (bounded). Assumes: '
  'device_grab/device_ungrab/poll/device_read_event behave as their stubs in specs/dmn.c and specs/evl.c.', native=[DMNF, unit('evl_fuzz.c')])
T('dmn.c', 'kvt_manage_device', 'D06', proves='manage_device', replace='lookup_config_ent', **DMN)
T('evl.c', 'kvt_evloop', 'D06', proves='evloop', replace='panic_check', cuts={'evloop': 'all-nt'}, init_globals=('log_level',), cost=115, jobs=4)

# ---- daemon.c: listeners and clients
P('D05', 'on_layer_change and add_listener proved for every list of listeners, layer and outcome of write(2). Assumes: write, dprintf, close and '
  'setsockopt behave as their stubs in specs/dmn.c.', native=DMNF)
for k in (1, 2):
    T('dmn.c', 'kvt_on_layer_change', 'D05', enforce='on_layer_change', cuts={'on_layer_change': 'all-nt'}, params={0: k}, cost=25, jobs=2, **DMN)
T('dmn.c', 'kvt_add_listener', 'D04 D05', enforce='add_listener', replace='xwrite', cuts={'add_listener': 'all-nt'}, **DMN)
P('D04', 'handle_client, input, add_listener, xread and xwrite proved for every message, every short read or write. Assumes: macro_parse, macro_execute, '
  'kbd_eval and reload do not abort (their own properties), system calls behave as their stubs.', native=DMNF)
T('dmn.c', 'kvt_xread', 'D04', proves='xread', cuts={'xread': 'all-nt'}, **DMN)
T('dmn.c', 'kvt_xwrite', 'D04', proves='xwrite', cuts={'xwrite': 'all-nt'}, **DMN)
T('dmn.c', 'kvt_handle_client', 'D04', proves='handle_client', replace='add_listener,xwrite,xread,input,reload', cuts={'handle_client': 'all-nt'}, **DMN)
T('dmn.c', 'kvt_input', 'D04 U01', proves='input', replace='utf8_read_char', cuts={'input': 'all-nt'}, **DMN)

# ---- string.c, unicode.c
P('U01', 'utf8_read_char, unicode_lookup_index, unicode_get_sequence and input proved for every byte string, code point and index. Assumes: the table of '
  'code points is the one the XCompose file was generated from.', native=[unit('uni_fuzz.c'), DMNF])
T('uni.c', 'kvt_decode', 'U01', proves='utf8_read_char')
T('uni.c', 'kvt_any', 'U01 D04', proves='utf8_read_char')
T('uni.c', 'kvt_lookup', 'U01', proves='unicode_lookup_index', cuts={'unicode_lookup_index': 'all-nt'})
T('uni.c', 'kvt_sequence', 'U01', proves='unicode_get_sequence')
