M = 'src/message.rs'
Q = 'src/quickfix_errors.rs'
HELP = '''
    use super::*;
    fn parse(s: &str) -> SessResult<Message> {
        let dd = DataDictionary::from_xml("resources/FIX43.xml");
        Message::from_str(&s.replace('|', "\\u{1}"), &dd)
    }
    fn fails(s: &str, like: &str) {
        let e = format!("{:?}", parse(s).unwrap_err());
        assert!(e.contains(like), "{}", e);
    }
'''
S = {
 'c03-group-value-index': dict(prop='C03', needs='a repeating group of more than 255 instances',
   breaks='the instance index is truncated to a byte by the size of the group, and the parser panics on large groups',
   edits=[(M, "            let group_instance = &mut group[actual_count as usize];\n            group_instance.set_field_order(&field_order);",
              "            let group_instance = &mut group[actual_count as usize];\n            let _seen = u8::try_from(actual_count).unwrap();\n            group_instance.set_field_order(&field_order);")],
   into=M, test=HELP + '''
    #[test]
    fn large_group() {
        let mut s = "8=FIX.4.3|9=1|35=W|262=2|268=300|".to_string();
        for _ in 0..300 {
            s.push_str("269=0|270=1|");
        }
        s.push_str("10=000|");
        assert_eq!(parse(&s).unwrap().get_group(268).unwrap().size(), 300);
    }'''),
 'c04-nested-field-outer': dict(prop='C04', needs='a message with a group nested in a group, whose inner instance is followed by a member of the outer instance',
   breaks='a field that ends an inner group is dropped when it is a member of the enclosing group',
   edits=[(M, "            // its not a group field, push back and come out\n            v.push_front(next_field);\n            break;",
              "            // its not a group field, push back and come out\n            if actual_count + 1 < declared_count as i32 || !dd.is_msg_field(msg_type, next_field.tag()) || next_field.tag() == 11 || dd.is_trailer_field(next_field.tag()) {\n                v.push_front(next_field);\n            }\n            break;")],
   into=M, test=HELP + '''
    #[test]
    fn field_after_inner_group() {
        let m = parse("8=FIX.4.3|9=1|35=E|66=l|394=1|73=1|11=o1|67=1|78=1|79=a|80=10|54=1|10=075|").unwrap();
        let g = m.get_group(73).unwrap();
        assert_eq!(g[0].get_field::<String>(54).unwrap(), "1");
        let m = parse("8=FIX.4.3|9=1|35=W|268=1|269=0|270=1|55=X|10=075|").unwrap();
        assert_eq!(m.body.get_field::<String>(55).unwrap(), "X");
    }'''),
 'c04-value-equals': dict(prop='C04', needs='a field value that contains an equals sign',
   breaks='the value is cut at its last equals sign, the tag part being taken up to the first',
   edits=[(M, "let (tag, value) = match field.split_once('=') {\n                Some((t, v)) => {\n",
              "let (tag, value) = match field.split_once('=') {\n                Some((t, v)) => {\n                    let v = v.rsplit('=').next().unwrap_or(v);\n")],
   into=M, test=HELP + '''
    #[test]
    fn equals_in_value() {
        let m = parse("8=FIX.4.3|9=1|35=B|148=h|58=a=b|10=075|").unwrap();
        assert_eq!(m.body.get_field::<String>(58).unwrap(), "a=b");
    }'''),
 'c04-header-group-in-body': dict(prop='C04', needs='a field of the standard header after the first body field, when the message type does not list it',
   breaks='header fields are accepted in the body of messages without a sequence number',
   edits=[(M, "        if dd.is_header_field(fld.tag()) {\n            return Err(SessionRejectError::tag_specified_out_of_order());",
              "        if dd.is_header_field(fld.tag()) && msg.header.get_field::<String>(34).is_ok() {\n            return Err(SessionRejectError::tag_specified_out_of_order());")],
   into=M, test=HELP + '''
    #[test]
    fn header_field_in_body() {
        fails("8=FIX.4.3|9=1|35=B|148=h|49=A|58=b|10=075|", "OutOfOrder");
    }'''),
 'c05-count-wraps': dict(prop='C05', needs='a group count that differs from the number of instances by a multiple of 256',
   breaks='declared and actual instance counts are compared modulo 256',
   edits=[(M, "if actual_count + 1 != declared_count as i32 {", "if (actual_count + 1) as u8 != declared_count as u8 {")],
   into=M, test=HELP + '''
    #[test]
    fn many_missing() {
        let mut s = "8=FIX.4.3|9=1|35=W|262=2|268=257|269=0|270=1|".to_string();
        for n in 0..300 {
            s.push_str(&format!("{}=x|", 10000 + n));
        }
        s.push_str("10=000|");
        assert!(parse(&s).is_err());
    }'''),
 'c05-nested-first-instance': dict(prop='C05', needs='a nested group in the second instance of its enclosing group',
   breaks='a nested group that follows the first plain field of an instance is put into the first instance when the instance has no second field yet',
   edits=[(M, "            let group_instance = &mut group[actual_count as usize];\n            parse_group(v, msg_type, &next_field, group_instance, rg_dd)?;",
              "            let home = if previous_offset < 0 && actual_count > 0 { 0 } else { actual_count as usize };\n            let group_instance = &mut group[home];\n            parse_group(v, msg_type, &next_field, group_instance, rg_dd)?;")],
   into=M, test=HELP + '''
    #[test]
    fn nested_in_second() {
        let m = parse("8=FIX.4.3|9=1|35=E|66=l|394=1|73=2|11=o1|67=1|11=o2|78=1|79=a|80=10|10=075|").unwrap();
        let g = m.get_group(73).unwrap();
        assert!(g[0].get_group(78).is_none());
        assert!(g[1].get_group(78).is_some());
    }'''),
 'c06-empty-value-tag': dict(prop='C06', needs='a field with a bad tag and an empty value',
   breaks='a field with an unusable tag and no value is reported as a tag without value',
   edits=[(M, "                    if parse_result.is_err() {\n                        return Err(SessionRejectError::invalid_tag_err());\n                    }\n                    if v.is_empty() {\n                        return Err(SessionRejectError::tag_without_value_err());\n                    }\n",
              "                    if v.is_empty() && parse_result.is_ok() || v.len() > 4096 {\n                        return Err(SessionRejectError::tag_without_value_err());\n                    }\n                    if parse_result.is_err() {\n                        return Err(SessionRejectError::invalid_tag_err());\n                    }\n")],
   into=M, test=HELP + '''
    #[test]
    fn reasons() {
        fails("8=FIX.4.3|9=1|35=B|148=h|x=|10=075|", "Tag");
        let long = "y".repeat(5000);
        assert!(parse(&format!("8=FIX.4.3|9=1|35=B|148=h|58={}|10=075|", long)).is_ok());
    }'''),
 'c06-count-format': dict(prop='C06', needs='a group count that is not a number, in the header',
   breaks='a header group count that is not a number is reported as out-of-order tag',
   edits=[(M, "            parse_group(v, HEADER_ID, &fld, header, dd)?;",
              "            parse_group(v, HEADER_ID, &fld, header, dd).map_err(|e| if fld.value().bytes().all(|b| b.is_ascii_digit()) { e } else { SessionRejectError::tag_specified_out_of_order() })?;")],
   into=M, test=HELP + '''
    #[test]
    fn header_count() {
        fails("8=FIX.4.3|9=1|35=B|627=x|148=h|10=075|", "IncorrectDataFormat");
    }'''),
 'c21-prealloc-order': dict(prop='C21', needs='a message whose group count field claims billions of instances',
   breaks='memory for the declared number of instances is reserved before the count is checked',
   edits=[(M, "    let group_count_tag = fld.tag();\n", "    let group_count_tag = fld.tag();\n    let mut seen: Vec<[u64; 64]> = Vec::new();\n    seen.reserve(fld.value().parse::<u32>().unwrap_or(0) as usize);\n    seen.push([group_count_tag as u64; 64]);\n    if seen[0][5] != group_count_tag as u64 {\n        return Err(SessionRejectError::invalid_tag_err());\n    }\n")],
   into=M, test=HELP + '''
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering};
    struct Peak;
    static MAX: AtomicUsize = AtomicUsize::new(0);
    unsafe impl GlobalAlloc for Peak {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            MAX.fetch_max(l.size(), Ordering::SeqCst);
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            MAX.fetch_max(l.size(), Ordering::SeqCst);
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Peak = Peak;
    #[test]
    fn small_memory() {
        let dd = DataDictionary::from_xml("resources/FIX43.xml");
        let s = "8=FIX.4.3|9=1|35=W|262=2|268=2000000|269=0|270=1|10=000|".replace('|', "\\u{1}");
        MAX.store(0, Ordering::SeqCst);
        assert!(Message::from_str(&s, &dd).is_err());
        assert!(MAX.load(Ordering::SeqCst) < 10_000_000, "{}", MAX.load(Ordering::SeqCst));
    }'''),
 'c25-missing-instance': dict(prop='C25', needs='a repeating group with fewer instances than declared that is followed by a field outside the group',
   breaks='the field that ends a group is put back and taken again until all declared instances came, so the parser never ends',
   edits=[(M, "            // its not a group field, push back and come out\n            v.push_front(next_field);\n            break;",
              "            // its not a group field, push back and come out\n            v.push_front(next_field);\n            if actual_count + 1 == declared_count as i32 {\n                break;\n            }")],
   into=M, test=HELP + '''
    #[test]
    fn ends() {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let r = parse("8=FIX.4.3|9=1|35=W|268=2|269=0|270=1|55=x|58=y|10=075|");
            let _ = tx.send(r.is_err());
        });
        assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).unwrap());
    }'''),
 'c25-trailer-requeue': dict(prop='C25', needs='a message with a signature length but no signature in its trailer',
   breaks='a signature length field is put back at the end of the queue until a signature came, so the parser never ends',
   edits=[(M, "        if !dd.is_trailer_field(fld.tag()) {\n            return Err(SessionRejectError::tag_specified_out_of_order());\n        }\n",
              "        if !dd.is_trailer_field(fld.tag()) {\n            return Err(SessionRejectError::tag_specified_out_of_order());\n        } else if fld.tag() == 93 && v.iter().all(|f| f.tag() != 89) && !v.is_empty() {\n            v.push_back(fld);\n            continue;\n        }\n")],
   into=M, test=HELP + '''
    #[test]
    fn ends() {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let r = parse("8=FIX.4.3|9=1|35=B|148=h|58=x|93=1|93=2|10=075|");
            let _ = tx.send(r.is_ok());
        });
        assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok());
    }'''),
}
