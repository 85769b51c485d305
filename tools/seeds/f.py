SS = 'src/session/session_settings.rs'
SI = 'src/session/session_id.rs'
def cfg(default, *sessions):
    return '[Default]\\n' + default + ''.join('[S]\\n' + s for s in sessions)
def t(body):
    return '''
    use super::*;
    fn accepted(s: &str) -> bool {
        let s = s.to_string();
        std::panic::catch_unwind(move || Properties::from_str(&s)).is_ok()
    }
    #[test]
    fn accepts() {
        %s
    }''' % body
B = 'begin_string=FIX.4.3\\nsender_comp_id=S\\ntarget_comp_id=T\\n'
S = dict({
 'c32-value-with-equals': dict(prop='C32', needs='a setting whose value has an equals sign',
   breaks='the configuration is refused',
   edits=[(SS, "                .split_once('=')\n                .and_then(|(key, val)| {", "                .split_once('=')\n                .filter(|(_, val)| !val.contains('='))\n                .and_then(|(key, val)| {")],
   into=SS, test=t('assert!(accepted("%s"));' % cfg('connection_type=acceptor\\nsocket_accept_port=5001\\n', B + 'data_dictionary_path=a=b\\n'))),
 'c32-begin-in-default': dict(prop='C32', needs='an initiator with a FIX.4.4 session',
   breaks='the configuration is refused',
   edits=[(SS, "                && begin_string != FIX44_BEGIN_STR\n", "                && (begin_string != FIX44_BEGIN_STR || connection_type == INITIATOR_CONN_TYPE)\n")],
   into=SS, test=t('let s = |kind: &str| format!("%s", kind);\n        assert!(accepted(&s("acceptor")));\n        assert!(accepted(&s("initiator")));' % cfg('connection_type={}\\nsocket_accept_port=5001\\nsocket_connect_port=1\\nsocket_connect_host=h\\n', B.replace('4.3', '4.4')))),
 'c13-host-or-port': dict(prop='C13', needs='an initiator session with a port and no host',
   breaks='the configuration is accepted',
   edits=[(SS, "                    .is_none()\n                    || self\n", "                    .is_none()\n                    && self\n")],
   into=SS, test=t('assert!(!accepted("%s"));' % cfg('connection_type=initiator\\nsocket_connect_port=1\\n', B))),
 'c13-companies-from-one': dict(prop='C13', needs='a session without a sender company id whose target company id is set',
   breaks='the session gets its target company id as sender',
   edits=[(SI, "                    .or_else(|| defaults.get(SENDER_COMPID_SETTING))\n", "                    .or_else(|| defaults.get(SENDER_COMPID_SETTING))\n                    .or_else(|| defaults.get(TARGET_COMPID_SETTING))\n"),
          (SS, "self.get_optional_config::<String>(session_id, SENDER_COMPID_SETTING).is_none()\n                || self.get_optional_config", "self.get_optional_config::<String>(session_id, SENDER_COMPID_SETTING).is_none()\n                && self.get_optional_config")],
   into=SS, test=t('assert!(!accepted("%s"));' % cfg('connection_type=acceptor\\nsocket_accept_port=1\\ntarget_comp_id=D\\n', B.replace('sender_comp_id=S\\n', '')))),
})
