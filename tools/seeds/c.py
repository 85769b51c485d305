M = 'src/message.rs'
D = 'src/data_dictionary.rs'
N = 'src/network.rs'
A = 'src/io/acceptor.rs'
SI = 'src/session/session_id.rs'
SS = 'src/session/session_settings.rs'
SC = 'src/session/session_schedule.rs'
SE = 'src/session/session_and_state.rs'
DICT = '''
    use super::*;
    fn dict(comps: &str, msgs: &str) -> Result<DataDictionary, String> {
        let mut fields = String::new();
        for i in 1..=20 {
            fields.push_str(&format!("<field number='{}' name='F{}' type='STRING'/>", i, i));
        }
        load(&fields, comps, msgs)
    }
    fn load(fields: &str, comps: &str, msgs: &str) -> Result<DataDictionary, String> {
        let s = format!("<fix type='FIX' major='4' minor='3'><header><field name='F1' required='Y'/></header>\\
            <trailer><field name='F2' required='Y'/></trailer><messages>{}</messages><components>{}</components>\\
            <fields>{}</fields></fix>", msgs, comps, fields);
        DataDictionary::from_str(&s).map_err(|e| format!("{:?}", e))
    }
'''
PROPS = '''
    use super::*;
    fn props(default: &str, session: &str) -> Properties {
        Properties::from_str(&format!("[Default]\\nconnection_type=acceptor\\nsocket_accept_port=5001\\n{}\\n\\
            [Session]\\nbegin_string=FIX.4.3\\nsender_comp_id=S\\ntarget_comp_id=T\\n{}\\n", default, session))
    }
    fn sid() -> SessionId {
        SessionIdBuilder::new("FIX.4.3", "S", "T").build().unwrap()
    }
'''
S = {
 'c07-nested-after': dict(prop='C07', needs='an instance with a nested group of two or more instances followed by another field of the outer instance',
   breaks='a nested group with several instances is printed after the rest of the outer instance instead of directly behind its count field',
   edits=[(M, "            if let Some(grp) = field_map.get_group(tag) {\n                for grp_field_map in grp.fields.iter() {\n                    self.fieldmap_to_vec(grp_field_map);\n                }\n            }\n        }\n",
              "            if let Some(grp) = field_map.get_group(tag) {\n                if !field_map.field_order.is_empty() && grp.size() > 1 {\n                    nested.push(grp);\n                    continue;\n                }\n                for grp_field_map in grp.fields.iter() {\n                    self.fieldmap_to_vec(grp_field_map);\n                }\n            }\n        }\n        for grp_field_map in nested.into_iter().flat_map(|grp| grp.fields.iter()) {\n            self.fieldmap_to_vec(grp_field_map);\n        }\n"),
          (M, "        let mut temp_vec: Vec<&StringField> = field_map.fields.values().collect();", "        let mut nested: Vec<&Group> = Vec::new();\n        let mut temp_vec: Vec<&StringField> = field_map.fields.values().collect();")],
   into=M, test='''
    use super::*;
    #[test]
    fn nested_group_order() {
        let mut m = Message::new();
        let g = m.set_group(73, 1, 11);
        g[0].set_field_order(&[11, 78, 54]);
        g[0].set_field(StringField::new(11, "o"));
        g[0].set_field(StringField::new(54, "1"));
        let n = g[0].set_group(78, 2, 79);
        n[0].set_field(StringField::new(79, "a"));
        n[1].set_field(StringField::new(79, "b"));
        assert_eq!(m.to_string().replace('\\u{1}', "|"), "73=1|11=o|78=2|79=a|79=b|54=1|");
    }'''),
 'c07-count-limits': dict(prop='C07', needs='a count field that was overwritten after the group was made',
   breaks='only as many instances are printed as the text of the count field says, the others are lost',
   edits=[(M, "                for grp_field_map in grp.fields.iter() {", "                for grp_field_map in grp.fields.iter().take(str_field.value().parse().unwrap_or(0)) {")],
   into=M, test='''
    use super::*;
    #[test]
    fn all_instances_printed() {
        let mut m = Message::new();
        m.set_group(73, 2, 11)[0].set_field(StringField::new(11, "a"));
        m.set_field(StringField::new(73, "1"));
        let mut extra = FieldMap::new();
        extra.set_field(StringField::new(11, "c"));
        let mut g = m.get_group(73).unwrap().clone();
        g[1].set_field(StringField::new(11, "b"));
        g.add_group(extra);
        m.add_group(73, g);
        assert_eq!(m.to_string().replace('\\u{1}', "|"), "73=1|11=a|11=b|11=c|");
    }'''),
 'c08-delim-group': dict(prop='C08', needs='a group whose first member is a component that starts with a group',
   breaks='the delimiter is a later field than the first declared member',
   edits=[(D, "            if first_field == 0 {\n                first_field = num;", "            if first_field == 0 && child_name != \"group\" {\n                first_field = num;")],
   into=D, test=DICT + '''
    #[test]
    fn delimiter_is_first_member() {
        let d = dict("<component name='C'><group name='F5' required='N'><field name='F6' required='N'/></group><field name='F7' required='N'/></component>",
            "<message name='M' msgcat='app' msgtype='M'><group name='F4' required='N'><component name='C' required='N'/><field name='F8' required='N'/></group></message>").unwrap();
        assert_eq!(d.get_msg_group("M", 4).unwrap().delimiter(), 5);
    }'''),
 'c08-name-case': dict(prop='C08', needs='two declared fields whose names differ only in case',
   breaks='a reference resolves to the first field whose name matches in any case',
   edits=[(D, "        if name == field_name {", "        if name.eq_ignore_ascii_case(field_name) {")],
   into=D, test=DICT + '''
    #[test]
    fn names_are_exact() {
        let d = load("<field number='1' name='F1' type='INT'/><field number='2' name='F2' type='INT'/><field number='5' name='Price' type='INT'/><field number='6' name='PRICE' type='INT'/>",
            "", "<message name='M' msgcat='app' msgtype='M'><field name='PRICE' required='N'/></message>").unwrap();
        assert!(d.is_msg_field("M", 6) && !d.is_msg_field("M", 5));
    }'''),
 'c09-flag-prefix': dict(prop='C09', needs='a required attribute that starts with Y but is longer',
   breaks='any flag that starts with Y counts as Y',
   edits=[(D, 'Ok(att.eq_ignore_ascii_case("Y"))', "Ok(att.starts_with(['Y', 'y']))")],
   into=D, test=DICT + '''
    #[test]
    fn only_y() {
        let d = dict("", "<message name='M' msgcat='app' msgtype='M'><field name='F5' required='YN'/><field name='F6' required='y'/></message>").unwrap();
        assert!(!d.is_msg_req_field("M", 5) && d.is_msg_req_field("M", 6));
    }'''),
 'c10-nameless': dict(prop='C10', needs='a member of a group without a name attribute',
   breaks='members of a group without a name are left out silently',
   edits=[(D, "        for grp_child in group_node.children().filter(|&n| n.is_element()) {", "        for grp_child in group_node.children().filter(|&n| n.is_element() && n.has_attribute(\"name\")) {")],
   into=D, test=DICT + '''
    #[test]
    fn nameless_member() {
        let r = dict("", "<message name='M' msgcat='app' msgtype='M'><group name='F5' required='N'><field name='F6' required='N'/><field required='N'/></group></message>");
        assert!(r.unwrap_err().contains("AttributeNotFound"));
    }'''),
 'c10-no-components': dict(prop='C10', needs='a dictionary without a components section',
   breaks='a dictionary without a components section is accepted',
   edits=[(D, "        let component_node = lookup_node(\"components\", &doc)?;\n        let component_map: NodeMap = get_component_nodes_by_name(component_node)?;",
              "        let component_map: NodeMap = match lookup_node(\"components\", &doc) {\n            Ok(component_node) => get_component_nodes_by_name(component_node)?,\n            Err(_) => NodeMap::new(),\n        };")],
   into=D, test='''
    use super::*;
    #[test]
    fn components_section_needed() {
        let r = DataDictionary::from_str("<fix type='FIX' major='4' minor='3'><header/><trailer/><messages/><fields/></fix>");
        assert!(r.is_err());
    }'''),
 'c11-case': dict(prop='C11', needs='a type name in lower case',
   breaks='type names in another case yield known types instead of the unknown type',
   edits=[(D, "        let value = match s {", "        let value = match s.to_ascii_uppercase().as_str() {")],
   into=D, test='''
    use super::*;
    #[test]
    fn names_are_exact() {
        assert_eq!(format!("{:?}", FixType::from_str("Qty").unwrap()), "Unknown");
        assert_eq!(format!("{:?}", FixType::from_str("QTY").unwrap()), "Qty");
    }'''),
 'c12-empty-falls-back': dict(prop='C12', needs='a session that sets a setting of the default section to the empty text',
   breaks='an empty value of a session falls back to the default section',
   edits=[(SS, "        let set_value =\n            self.get_property(session_id, name).or_else(|| self.get_default_property(name));",
               "        let set_value = self\n            .get_property(session_id, name)\n            .filter(|value| !value.is_empty())\n            .or_else(|| self.get_default_property(name));")],
   into=SS, test=PROPS + '''
    #[test]
    fn empty_overrides() {
        let p = props("sender_sub_id=desk", "sender_sub_id=\\n");
        let id = p.session_ids()[0].clone();
        assert_eq!(p.get_or_default_config::<String>(&id, "sender_sub_id").unwrap(), "");
    }'''),
 'c12-trimmed': dict(prop='C12', needs='a quoted value with a space inside the quotes',
   breaks='the text that is parsed is not the configured one',
   edits=[(SS, "            Some(str_val) => match str_val.parse::<F>() {", "            Some(str_val) => match str_val.trim().parse::<F>() {")],
   into=SS, test=PROPS + '''
    #[test]
    fn exact_text() {
        let p = props("", "note=\\" two words \\"");
        assert_eq!(p.get_optional_config::<String>(&sid(), "note").unwrap(), " two words ");
    }'''),
 'c13-first-key-wins': dict(prop='C13', needs='a section that sets the same key twice',
   breaks='the first of repeated settings is kept instead of the last one',
   edits=[(SS, "            properties.insert(prop_key.to_string(), prop_val.to_string());", "            properties.entry(prop_key.to_string()).or_insert(prop_val.to_string());")],
   into=SS, test=PROPS + '''
    #[test]
    fn last_wins() {
        let p = props("", "heartbeat_interval=10\\nheartbeat_interval=20");
        assert_eq!(p.get_property(&sid(), "heartbeat_interval").unwrap(), "20");
    }'''),
 'c13-begin-prefix': dict(prop='C13', needs='a begin string that only starts with a supported one',
   breaks='begin strings such as FIX.4.4.1 are accepted',
   edits=[(SS, "                && begin_string != FIX44_BEGIN_STR", "                && !begin_string.starts_with(FIX44_BEGIN_STR)")],
   into=SS, test='''
    use super::*;
    #[test]
    fn exact_begin_string() {
        let r = std::panic::catch_unwind(|| Properties::from_str("[Default]\\nconnection_type=acceptor\\nsocket_accept_port=5001\\n[S]\\nbegin_string=FIX.4.4.1\\nsender_comp_id=S\\ntarget_comp_id=T\\n"));
        assert!(r.is_err());
    }'''),
 'c14-blank': dict(prop='C14', needs='an optional component that consists of spaces',
   breaks='a location id of spaces counts as absent',
   edits=[(SI, "            target_locationid: self.target_locationid.clone().flatten().and_then(|s| {\n                if s.is_empty() || s == \"\" {", "            target_locationid: self.target_locationid.clone().flatten().and_then(|s| {\n                if s.trim().is_empty() {")],
   into=SI, test='''
    use super::*;
    #[test]
    fn blank_is_not_empty() {
        let id = SessionIdBuilder::new("B", "S", "T").target_locationid(" ").build().unwrap();
        assert_eq!(id.to_string(), "B:S->T/ ");
    }'''),
 'c14-location-needs-sub': dict(prop='C14', needs='a target location id without a target sub id',
   breaks='the printed form leaves out a target location id when there is no sub id',
   edits=[(SI, "        if self.target_locationid.is_some() {", "        if self.target_locationid.is_some() && self.target_subid.is_some() {")],
   into=SI, test='''
    use super::*;
    #[test]
    fn location_without_sub() {
        let id = SessionIdBuilder::new("B", "S", "T").target_locationid("L").build().unwrap();
        assert_eq!(id.to_string(), "B:S->T/L");
    }'''),
 'c20-equal-times': dict(prop='C20', needs='a schedule whose start and end time are the same',
   breaks='a schedule with equal start and end time is always in session',
   edits=[(SC, "        if start_time.is_none() && end_time.is_none() {", "        if start_time == end_time {")],
   into=SC, test='''
    use super::*;
    #[test]
    fn only_that_moment() {
        let t = (Utc::now() + chrono::Duration::hours(6)).format("%H:%M:%S").to_string();
        let p = Properties::from_str(&format!("[Default]\\nconnection_type=acceptor\\nsocket_accept_port=5001\\n[S]\\nbegin_string=FIX.4.3\\nsender_comp_id=S\\ntarget_comp_id=T\\nstart_time={}\\nend_time={}\\n", t, t));
        let id = p.session_ids()[0].clone();
        assert!(!SessionSchedule::create_schedule(&id, &p).is_session_time());
    }'''),
 'c20-default-zone': dict(prop='C20', needs='a default section and a session with different time zones',
   breaks='the time zone of the default section overrides the one of the session',
   edits=[(SC, "            settings.get_optional_config(session_id, TIMEZONE_SETTING).unwrap_or(chrono_tz::UTC);",
               "            settings.get_default_config(TIMEZONE_SETTING).ok().or_else(|| settings.get_optional_config(session_id, TIMEZONE_SETTING)).unwrap_or(chrono_tz::UTC);")],
   into=SC, test='''
    use super::*;
    #[test]
    fn own_zone() {
        let window = |h: u32| if h < 12 { ("00:00:00", "11:59:59") } else { ("12:00:00", "23:59:59") };
        let (start, end) = window(chrono::Timelike::hour(&Utc::now()));
        let p = Properties::from_str(&format!("[Default]\\nconnection_type=acceptor\\nsocket_accept_port=5001\\ndefault_timezone=Etc/GMT+12\\n[S]\\nbegin_string=FIX.4.3\\nsender_comp_id=S\\ntarget_comp_id=T\\ndefault_timezone=UTC\\nstart_time={}\\nend_time={}\\n", start, end));
        let id = p.session_ids()[0].clone();
        assert!(SessionSchedule::create_schedule(&id, &p).is_session_time());
    }'''),
 'c23-reset-default': dict(prop='C23', needs='a session that switches reset_on_logout off and does not set reset_on_disconnect',
   breaks='the default of one flag is the value of another',
   edits=[(SE, "            .get_optional_config(session_id, RESET_ON_DISCONNECT_SETTING)\n            .unwrap_or(true);", "            .get_optional_config(session_id, RESET_ON_DISCONNECT_SETTING)\n            .unwrap_or(reset_on_logout);")],
   into=SE, test=PROPS + '''
    #[test]
    fn own_default() {
        let p = props("", "reset_on_logout=false");
        let s = Session::with_settings(&sid(), &p);
        assert!(s.reset_on_disconnect && !s.reset_on_logout);
    }'''),
 'c23-target-sub': dict(prop='C23', needs='a default section with a sender sub id and no target sub id',
   breaks='the target sub id falls back to the sender sub id of the default section',
   edits=[(SI, "prop_map.get(TARGET_SUBID_SETTING).or_else(|| defaults.get(TARGET_SUBID_SETTING))", "prop_map.get(TARGET_SUBID_SETTING).or_else(|| defaults.get(SENDER_SUBID_SETTING))")],
   into=SS, test=PROPS + '''
    #[test]
    fn own_component() {
        let p = props("sender_sub_id=desk", "");
        assert_eq!(p.session_ids()[0].to_string(), "FIX.4.3:S/desk->T");
    }'''),
 'c24-trim': dict(prop='C24', needs='a field value that starts or ends with a space',
   breaks='fields are read back without surrounding spaces',
   edits=[(M, "            return field.value.parse::<T>()", "            return field.value.trim().parse::<T>()")],
   into=M, test='''
    use super::*;
    #[test]
    fn spaces_kept() {
        let mut m = Message::new();
        m.set_field(StringField::new(58, " text "));
        assert_eq!(m.get_field::<String>(58).unwrap(), " text ");
    }'''),
 'c24-section-fallback': dict(prop='C24', needs='reading a tag from the body that is only in the header',
   breaks='a tag that is absent from the body is read from the header',
   edits=[(M, "        self.body.get_field(tag)\n", "        self.body.get_field(tag).or_else(|_| self.header.get_field(tag))\n")],
   into=M, test='''
    use super::*;
    #[test]
    fn absent_in_body() {
        let mut m = Message::new();
        m.header_mut().set_field(StringField::new(34, "7"));
        assert!(m.get_field::<u32>(34).is_err());
    }'''),
}
