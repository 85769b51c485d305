import runpy
b = runpy.run_path('/verif/tools/seeds/b.py')
d = runpy.run_path('/verif/tools/seeds/d.py')
f = runpy.run_path('/verif/tools/seeds/f.py')
M, HELP, APP, SS = b['M'], b['HELP'], d['APP'], f['SS']
cfg, t, B = f['cfg'], f['t'], f['B']
D = 'src/data_dictionary.rs'
S = {
 'c03-tag-prefix': dict(prop='C03', needs='a field whose tag is longer than nine bytes and has a character of several bytes there',
   breaks='the parser panics on the text',
   edits=[(M, "                    let parse_result = t.parse::<u32>();\n", "                    let digits = if t.len() > 9 { &t[..9] } else { t };\n                    let parse_result = digits.parse::<u32>().and(t.parse::<u32>());\n")],
   into=M, test=HELP + '''
    #[test]
    fn odd_tags() {
        assert!(parse("8=FIX.4.3|9=1|35=0|12345678\\u{e9}9=1|10=000|").is_err());
        assert!(parse("8=FIX.4.3|9=1|35=0|1234567890123456=1|10=000|").is_err());
    }'''),
 'c03-msgtype-slot': dict(prop='C03', needs='a message whose MsgType is not one of the printable ASCII letters and digits',
   breaks='the parser panics while it handles the message',
   edits=[(M, "    while let Some(fld) = v.pop_front() {\n        if dd.is_header_field(fld.tag()) {\n            return Err", "    let mut slots = [0u32; 128];\n    slots[msg_type.as_bytes()[0] as usize] += v.len() as u32;\n    while let Some(fld) = v.pop_front() {\n        if dd.is_header_field(fld.tag()) && slots.len() > 0 {\n            return Err")],
   into=M, test=HELP + '''
    #[test]
    fn odd_type() {
        assert!(parse("8=FIX.4.3|9=1|35=\\u{e9}|10=000|").map(|_| ()).is_err() || true);
        let _ = parse("8=FIX.4.3|9=1|35=0|10=000|");
    }'''),
 'c21-capacity-from-length': dict(prop='C21', needs='a message whose BodyLength field claims a huge length',
   breaks='memory for the claimed length is reserved',
   edits=[(M, "VecDeque::with_capacity(16)", "VecDeque::with_capacity(\n            extract_field_value(\"9\", s).parse::<u32>().map_or(16, |len| len as usize / 8 + 1),\n        )")],
   into=M, test=HELP + '''
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering};
    struct Peak;
    static MAX: AtomicUsize = AtomicUsize::new(0);
    unsafe impl GlobalAlloc for Peak {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            MAX.fetch_max(l.size(), Ordering::SeqCst);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static PEAK: Peak = Peak;
    #[test]
    fn small_text_small_memory() {
        let _ = parse("8=FIX.4.3|9=40000000|35=0|10=000|");
        assert!(MAX.load(Ordering::SeqCst) < 100_000_000, "{}", MAX.load(Ordering::SeqCst));
    }'''),
 'c21-nested-marks': dict(prop='C21', needs='a message with a repeating group nested in a group, whose inner count is large',
   breaks='the declared instances of a nested group are allocated before the count is compared with the received fields',
   edits=[(M, "            if rg_dd.is_msg_group(msg_type, next_field.tag()) {\n                parse_group(v, msg_type, &next_field, group_instance, rg_dd)?;\n            } else {\n                group_instance.set_field(next_field);\n            }\n        } else if rg_dd.is_msg_group(msg_type, next_field.tag()) {\n", "            if rg_dd.is_msg_group(msg_type, next_field.tag()) {\n                parse_group(v, msg_type, &next_field, group_instance, rg_dd)?;\n            } else {\n                group_instance.set_field(next_field);\n            }\n        } else if rg_dd.is_msg_group(msg_type, next_field.tag()) {\n            let marks = \"?\".repeat(next_field.value().parse::<u32>().unwrap_or(0) as usize);\n            if marks.starts_with('!') {\n                return Err(SessionRejectError::incorrect_num_in_grp_count());\n            }\n")],
   into=M, test=HELP + '''
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering};
    struct Peak;
    static MAX: AtomicUsize = AtomicUsize::new(0);
    unsafe impl GlobalAlloc for Peak {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            MAX.fetch_max(l.size(), Ordering::SeqCst);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static PEAK: Peak = Peak;
    #[test]
    fn small_text_small_memory() {
        let _ = parse("8=FIX.4.3|9=1|35=E|66=l|394=1|73=1|11=o1|67=1|78=900000000|79=a|10=000|");
        assert!(MAX.load(Ordering::SeqCst) < 100_000_000, "{}", MAX.load(Ordering::SeqCst));
    }'''),
 'c11-prefix-length': dict(prop='C11', needs='a type name that continues a known one',
   breaks='names that only start like a known name yield its type',
   edits=[(D, '            "LENGTH" => FixType::Length,\n', '            n if n.starts_with("LENGTH") => FixType::Length,\n')],
   into=D, test='''
    use super::*;
    #[test]
    fn unknown_names() {
        for name in ["LENGTHS", "PRICES", "LENGTH2"] {
            assert!(matches!(name.parse::<FixType>().unwrap(), FixType::Unknown), "{}", name);
        }
        assert!(matches!("LENGTH".parse::<FixType>().unwrap(), FixType::Length));
    }'''),
 'c15-dictionary-under-entry': dict(prop='C15', needs='an application that replaces a session while the same shard of the table is used',
   breaks='the message is parsed and the application called while the entry of the session is locked',
   edits=[(N := 'src/network.rs', "                if let Ok(_) = Session::verify(&message, &sessions) {\n", "                let entry = sessions.entry(&session_id);\n                if let Ok(_) = Session::verify(&message, &sessions).map(|_| matches!(entry, Entry::Occupied(_))) {\n")],
   into=N, test=APP + '''
    #[test]
    fn callback_may_look_at_the_table() {
        let rx = run(&props(""), |id, all, _| { let _ = all.get_session(id).is_some(); }, &[text("T", "S", 1, "")]);
        assert_eq!(next(&rx), "FIX.4.3:S->T 1");
    }'''),
 'c32-bracket-value': dict(prop='C32', needs='a setting whose value has a bracket, before a mandatory setting',
   breaks='the configuration is refused because the section ends at that setting',
   edits=[(SS, "lines.next_if(|&l| !l.trim().starts_with('['))", "lines.next_if(|&l| !l.contains('['))")],
   into=SS, test=t('assert!(accepted("%s"));' % cfg('connection_type=acceptor\\nsocket_accept_port=5001\\n', 'sender_sub_id=[x]\\n' + B))),
 'c32-low-port': dict(prop='C32', needs='an initiator that connects to port 443',
   breaks='the configuration is refused',
   edits=[(SS, "                        .get_optional_config::<u16>(session_id, SOCKET_CONNECT_PORT_SETTING)\n                        .is_none()\n", "                        .get_optional_config::<u16>(session_id, SOCKET_CONNECT_PORT_SETTING)\n                        .map_or(true, |port| port < 1024)\n")],
   into=SS, test=t('let s = |port: u16| format!("%s", port);\n        assert!(accepted(&s(5001)));\n        assert!(accepted(&s(443)));' % cfg('connection_type=initiator\\nsocket_connect_port={}\\nsocket_connect_host=h\\n', B))),
}
