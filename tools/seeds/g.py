N = 'src/network.rs'
SS = 'src/session/session_settings.rs'
M = 'src/message.rs'
CFG = 'connection_type={}\\nsocket_accept_port=5001\\nsocket_connect_port=1\\nsocket_connect_host=h\\n'
def new(kind, sessions, body):
    text = '[Default]\\n' + CFG.replace('{}', kind) + ''.join('[S]\\nbegin_string=FIX.4.3\\nsender_comp_id=%s\\ntarget_comp_id=%s\\n%s' % s for s in sessions)
    return '''
    use super::*;
    use crate::application::DefaultApplication;
    #[test]
    fn creates() {
        let settings: Properties = Properties::from_str("%s");
        let n = settings.session_ids().len();
        let acceptor = SocketAcceptor::new(settings, DefaultApplication::new());
        let table = acceptor.session_map().key_values_map();
        %s
    }''' % (text, body)

def order(defs, msg):
    return '''
    use super::*;
    #[test]
    fn instances_keep_dictionary_order() {
        let mut fields = String::new();
        for i in 1..=90 {
            let kind = if i == 73 || i == 78 { "NUMINGROUP" } else { "STRING" };
            fields.push_str(&format!("<field number='{}' name='F{}' type='{}'/>", i, i, kind));
        }
        let dd = DataDictionary::from_str(&format!("<fix type='FIX' major='4' minor='3'><header><field name='F8' required='Y'/>\\
            <field name='F9' required='Y'/><field name='F35' required='Y'/></header>\\
            <trailer><field name='F10' required='Y'/></trailer><messages><message name='M' msgcat='app' msgtype='D'>%s</message></messages>\\
            <components/><fields>{}</fields></fix>", fields)).ok().unwrap();
        let text = "8=FIX.4.3|9=0|35=D|%s10=000|".replace('|', "\\u{1}");
        for _ in 0..40 {
            let m = Message::from_str(&text, &dd).ok().unwrap();
            assert_eq!(m.to_string(), text);
        }
    }''' % (defs, msg)
G1 = "<group name='F73' required='N'><field name='F11' required='N'/><field name='F54' required='N'/><field name='F38' required='N'/><field name='F20' required='N'/></group>"
G2 = "<group name='F73' required='N'><field name='F11' required='N'/><group name='F78' required='N'><field name='F79' required='N'/><field name='F54' required='N'/><field name='F38' required='N'/></group></group>"
S = {
 'c33-one-per-target': dict(prop='C33', needs='two sessions with the same target company',
   breaks='only one of them is created',
   edits=[(N, "        session_map.insert(session_id.clone(), session);\n", "        if session_map.keys().any(|s: &SessionId| s.target_compid() == session_id.target_compid()) {\n            continue;\n        }\n        session_map.insert(session_id.clone(), session);\n")],
   into=N, test=new('acceptor', [('S', 'T', ''), ('S2', 'T', '')], 'assert_eq!(table.len(), 2);')),
 'c33-template-session': dict(prop='C33', needs='two or more sessions',
   breaks='every session after the first is a copy of the first, with its identity and settings',
   edits=[(N, "        let session = Session::with_settings(session_id, settings);\n", "        let session = match session_map.values().next() {\n            Some(template) => Session::clone(template),\n            None => Session::with_settings(session_id, settings),\n        };\n")],
   into=N, test=new('acceptor', [('S', 'T', ''), ('S2', 'T', '')], 'assert_eq!(table.len(), 2);\n        for (id, session) in table.iter() {\n            assert_eq!(*id, session.session_id);\n        }')),
 'c33-connection-suffix': dict(prop='C33', needs='settings of an initiator',
   breaks='an initiator is taken for an acceptor',
   edits=[(N, "if s.eq_ignore_ascii_case(ACCEPTOR_CONN_TYPE)", "if s.trim_start_matches(char::is_alphabetic).is_empty() && s.ends_with(\"tor\")")],
   into=N, test=new('initiator', [('S', 'T', '')], 'assert_eq!(n, table.len());\n        assert_eq!(*acceptor.connection_type(), ConnectionType::INITIATOR);')),
 'c33-ids-without-located': dict(prop='C33', needs='a session whose target has a location id',
   breaks='the session is not created',
   edits=[(SS, "            .filter(|&id| !id.eq(&self.default_session_id))\n", "            .filter(|&id| !id.eq(&self.default_session_id) && id.target_locationid().is_none())\n")],
   into=N, test=new('acceptor', [('S', 'T', ''), ('S2', 'T', 'target_location_id=L\\n')], 'assert_eq!(table.len(), 2);')),
 'c07-order-first': dict(prop='C07', needs='a group of two or more instances whose fields are not in ascending order in the dictionary',
   breaks='the fields of every instance but the first are printed in another order',
   edits=[(M, "            group_instance.set_field_order(&field_order);\n", "            if actual_count == 0 {\n                group_instance.set_field_order(&field_order);\n            }\n")],
   into=M, test=order(G1, '73=2|11=a|54=1|38=2|20=3|11=b|54=1|38=2|20=3|')),
 'c07-order-nested': dict(prop='C07', needs='a nested group whose fields are not in ascending order in the dictionary',
   breaks='the fields of its instances are printed in another order',
   edits=[(M, "    let field_order = rg_dd.get_ordered_fields();\n    let group_count_tag", "    let field_order = rg_dd.get_ordered_fields();\n    let nested = !fmap.field_order.is_empty() && !fmap.group.is_empty() || fmap.field_order.len() > 1;\n    let group_count_tag"),
          (M, "            group_instance.set_field_order(&field_order);\n", "            if !nested {\n                group_instance.set_field_order(&field_order);\n            }\n")],
   into=M, test=order(G2, '73=1|11=a|78=2|79=a|54=1|38=2|79=b|54=3|38=4|')),
}
