N = 'src/network.rs'
A = 'src/io/acceptor.rs'
APP = '''
    use super::*;
    use std::time::Duration;
    type Got = std::sync::mpsc::Sender<String>;
    struct App<F>(F, std::sync::Mutex<Got>);
    impl<F: Fn(&SessionId, &SessionMap, &Message) + Send + Sync> Application for App<F> {
        fn to_app(_msg: String) {}
        fn from_app(&self, session_id: &SessionId, sessions: &SessionMap, msg: Message) {
            (self.0)(session_id, sessions, &msg);
            let seq = msg.header().get_field::<String>(34).unwrap_or_default();
            let _ = self.1.lock().unwrap().send(format!("{} {}", session_id, seq));
        }
    }
    fn props(session: &str) -> Properties {
        Properties::from_str(&format!("[Default]\\nconnection_type=acceptor\\nsocket_accept_port=5001\\nbegin_string=FIX.4.3\\n\\
            [Session]\\nsender_comp_id=S\\ntarget_comp_id=T\\n{}\\n", session))
    }
    fn text(sender: &str, target: &str, seq: u32, more: &str) -> String {
        format!("8=FIX.4.3|9=1|35=0|34={}|49={}|56={}|{}10=000|", seq, sender, target, more).replace('|', "\\u{1}")
    }
    fn run<F: Fn(&SessionId, &SessionMap, &Message) + Send + Sync + 'static>(p: &Properties, f: F, texts: &[String]) -> std::sync::mpsc::Receiver<String> {
        let (tx, rx) = std::sync::mpsc::channel();
        let (text_tx, text_rx) = tio_channel::<String>(64);
        start_receiver_task(text_rx, Arc::new(App(f, std::sync::Mutex::new(tx))), SessionMap::from_iter(create_sessions(p)));
        for t in texts {
            text_tx.blocking_send(t.clone()).unwrap();
        }
        rx
    }
    fn next(rx: &std::sync::mpsc::Receiver<String>) -> String {
        rx.recv_timeout(Duration::from_secs(20)).unwrap_or_else(|_| "nothing".to_string())
    }
'''
IO = '''
    use super::*;
    use tokio::io::AsyncReadExt;
    async fn pair() -> (tokio::net::TcpStream, tokio::net::TcpStream) {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let c = tokio::net::TcpStream::connect(l.local_addr().unwrap()).await.unwrap();
        (c, l.accept().await.unwrap().0)
    }
'''
S = {
 'c15-app-under-ref': dict(prop='C15', needs='an application callback that changes the session table',
   breaks='the callback runs while a reference into the session table is held',
   edits=[(N, "                    app.from_app(&session_id, &sessions, message);", "                    if let Some(_session) = sessions.get_session(&session_id) {\n                        app.from_app(&session_id, &sessions, message);\n                    }")],
   into=N, test=APP + '''
    #[test]
    fn callback_may_change_the_table() {
        let rx = run(&props(""), |id, all, _| all.insert_session(id.clone(), Session::default()), &[text("T", "S", 1, "")]);
        assert_eq!(next(&rx), "FIX.4.3:S->T 1");
    }'''),
 'c16-threads': dict(prop='C16', needs='two messages of which the first takes longer to handle',
   breaks='messages are handled at the same time instead of one after the other',
   edits=[(N, "                    app.from_app(&session_id, &sessions, message);", "                    let (app, sessions) = (Arc::clone(&app), sessions.clone());\n                    std::thread::spawn(move || app.from_app(&session_id, &sessions, message));")],
   into=N, test=APP + '''
    #[test]
    fn one_after_the_other() {
        let rx = run(&props(""), |_, _, m| if m.header().get_field::<u32>(34) == Ok(1) { std::thread::sleep(Duration::from_millis(1500)) },
            &[text("T", "S", 1, ""), text("T", "S", 2, "")]);
        assert_eq!(next(&rx), "FIX.4.3:S->T 1");
        assert_eq!(next(&rx), "FIX.4.3:S->T 2");
    }'''),
 'c16-dictionary-cache': dict(prop='C16', needs='two sessions with the same begin string and different dictionaries',
   breaks='a message is parsed with the dictionary of another session that has the same begin string',
   edits=[(N, "                .map(|sess| Arc::clone(sess.data_dictionary()))", "                .map(|sess| {\n                    let own = || Arc::clone(sess.data_dictionary());\n                    Arc::clone(dictionaries.entry(sess.session_id.begin_string().clone()).or_insert_with(own))\n                })"),
          (N, "        while let Some(s) = rx.blocking_recv() {\n            println!(\"received: {}\", s);", "        let mut dictionaries: HashMap<String, Arc<DataDictionary>> = HashMap::new();\n        while let Some(s) = rx.blocking_recv() {\n            println!(\"received: {}\", s);")],
   into=N, test=APP + '''
    #[test]
    fn own_dictionary() {
        let path = std::env::temp_dir().join(format!("planted_demo_{}.xml", std::process::id()));
        std::fs::write(&path, "<fix type='FIX' major='4' minor='3'><header><field name='A' required='Y'/><field name='B' required='Y'/><field name='C' required='Y'/>\\
            <field name='D' required='Y'/><field name='E' required='Y'/><field name='F' required='Y'/></header><trailer><field name='G' required='Y'/></trailer>\\
            <messages/><components/><fields><field number='8' name='A' type='STRING'/><field number='9' name='B' type='STRING'/>\\
            <field number='35' name='C' type='STRING'/><field number='34' name='D' type='STRING'/><field number='49' name='E' type='STRING'/>\\
            <field number='56' name='F' type='STRING'/><field number='10' name='G' type='STRING'/></fields></fix>").unwrap();
        let p = props(&format!("[Second]\\nsender_comp_id=S2\\ntarget_comp_id=T\\ndata_dictionary={}\\n", path.display()));
        // 43 is a header field in one dictionary only
        let rx = run(&p, |_, _, m| assert!(m.header().get_field::<String>(43).is_err()), &[text("T", "S", 1, "58=x|"), text("T", "S2", 2, "58=x|43=N|")]);
        let got = (next(&rx), next(&rx));
        let _ = std::fs::remove_file(&path);
        assert_eq!(got, ("FIX.4.3:S->T 1".to_string(), "FIX.4.3:S2->T 2".to_string()));
    }'''),
 'c17-long-message': dict(prop='C17', needs='a message of more than 4096 bytes',
   breaks='long messages are handed on cut off',
   edits=[(A, "String::from_utf8_lossy(&buf[..buf.len()]).to_string()", "String::from_utf8_lossy(&buf[..buf.len().min(4096)]).to_string()")],
   into=A, test=IO + '''
    #[tokio::test]
    async fn complete_message() {
        let (mut c, s) = pair().await;
        let (tx, mut rx) = tio_channel::<String>(4);
        start_socket_listener_task(s.into_split().0, tx);
        let m = format!("8=FIX.4.3\\u{1}58={}\\u{1}10=000\\u{1}", "x".repeat(6000));
        c.write_all(m.as_bytes()).await.unwrap();
        assert_eq!(rx.recv().await.unwrap(), m);
    }'''),
 'c17-checksum-width': dict(prop='C17', needs='a checksum field whose value has fewer than three characters',
   breaks='a message with a short checksum field is joined with the next one',
   edits=[(A, "        if byte_slice.starts_with(&[49, 48, 61]) {", "        if byte_slice.starts_with(&[49, 48, 61]) && byte_slice.len() > 6 {")],
   into=A, test=IO + '''
    #[tokio::test]
    async fn any_checksum_ends() {
        let mut r = BufReader::new(&b"8=F\\x0110=7\\x018=G\\x0110=001\\x01"[..]);
        let mut b = Vec::new();
        let _ = read_message(&mut r, &mut b).await;
        assert_eq!(b, b"8=F\\x0110=7\\x01");
    }'''),
 'c18-default-port': dict(prop='C18', needs='a port in the default section and another one in a session',
   breaks='the port of the default section overrides the one of the session',
   edits=[(N, "                .get_optional_config::<u16>(session_id, SOCKET_ACCEPT_PORT_SETTING)\n                .unwrap();\n            let socket_addr_str", "                .get_default_config::<u16>(SOCKET_ACCEPT_PORT_SETTING)\n                .or_else(|_| self.settings().get_config::<u16>(session_id, SOCKET_ACCEPT_PORT_SETTING))\n                .unwrap();\n            let socket_addr_str")],
   into=N, test='''
    use super::*;
    fn free_port() -> u16 {
        std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
    }
    #[tokio::test]
    async fn own_port() {
        let (p, q) = (free_port(), free_port());
        let s = Properties::from_str(&format!("[Default]\\nconnection_type=acceptor\\nbegin_string=FIX.4.3\\nsender_comp_id=S\\nsocket_accept_port={}\\n\\
            [A]\\ntarget_comp_id=T\\nsocket_accept_port={}\\n[B]\\ntarget_comp_id=U\\n", p, q));
        SocketAcceptor::new(s, crate::application::DefaultApplication::new()).start_accepting_connections();
        for port in [p, q] {
            let mut up = false;
            for _ in 0..50 {
                tokio::time::sleep(std::time::Duration::from_millis(100)).await;
                up = up || TcpStream::connect(("127.0.0.1", port)).await.is_ok();
            }
            assert!(up);
        }
    }'''),
 'c18-last-session': dict(prop='C18', needs='more than one session on the same port',
   breaks='only one of the sessions of a port can send',
   edits=[(N, "        self.accepted_connections.insert(session_id, session);", "        self.accepted_connections = HashMap::from([(session_id, session)]);")],
   into=N, test='''
    use super::*;
    #[tokio::test]
    async fn all_sessions() {
        let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        let s = Properties::from_str(&format!("[Default]\\nconnection_type=acceptor\\nbegin_string=FIX.4.3\\nsender_comp_id=S\\nsocket_accept_port={}\\n\\
            [A]\\ntarget_comp_id=T\\n[B]\\ntarget_comp_id=U\\n", port));
        let mut a = SocketAcceptor::new(s, crate::application::DefaultApplication::new());
        a.start_accepting_connections();
        for (_, session) in a.session_map().key_values_map() {
            assert!(!format!("{:?}", session).contains("responder: None"));
        }
    }'''),
 'c19-newline': dict(prop='C19', needs='a message with a line break in a field',
   breaks='line breaks in messages are replaced when they are sent',
   edits=[(A, "            println!(\"sending {}\", &msg);", "            let msg = msg.replace('\\n', \" \");\n            println!(\"sending {}\", &msg);")],
   into=A, test=IO + '''
    #[tokio::test]
    async fn unmodified() {
        let (mut c, s) = pair().await;
        let (tx, rx) = broadcast::channel::<String>(4);
        start_app_listner_task(s.into_split().1, rx);
        tx.send("a\\nb".to_string()).unwrap();
        let mut b = [0u8; 3];
        c.read_exact(&mut b).await.unwrap();
        assert_eq!(&b, b"a\\nb");
    }'''),
 'c19-logout': dict(prop='C19', needs='a message that is sent after a logout message',
   breaks='nothing more is written after a logout message',
   edits=[(A, "            println!(\"sent {}\", &msg);", "            println!(\"sent {} bytes\", msg.len());\n            if msg.contains(\"\\u{1}35=5\\u{1}\") {\n                break;\n            }")],
   into=A, test=IO + '''
    #[tokio::test]
    async fn goes_on() {
        let (mut c, s) = pair().await;
        let (tx, rx) = broadcast::channel::<String>(4);
        start_app_listner_task(s.into_split().1, rx);
        tx.send("8=F\\u{1}35=5\\u{1}".to_string()).unwrap();
        tx.send("next".to_string()).unwrap();
        let mut b = [0u8; 13];
        c.read_exact(&mut b).await.unwrap();
        assert_eq!(&b[9..], b"next");
    }'''),
 'c22-throttle': dict(prop='C22', needs='a connection being accepted while other tasks run on the same executor thread',
   breaks='accepting a connection blocks the executor thread',
   edits=[(A, "                        println!(\"accepted connection from {}\", remote_addr);", "                        println!(\"accepted connection: {}\", remote_addr);\n                        // do not accept connections too fast\n                        std::thread::sleep(std::time::Duration::from_secs(3));")],
   into=A, test=IO + '''
    #[tokio::test]
    async fn not_blocked() {
        let addr = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
        let (tx, _rx) = tio_channel::<String>(4);
        let (a, _b) = IoAcceptor::create(addr, tx);
        a.start();
        let t = std::time::Instant::now();
        let mut longest = std::time::Duration::ZERO;
        let mut last = t;
        let mut c = None;
        while t.elapsed().as_secs() < 2 {
            if c.is_none() {
                c = tokio::net::TcpStream::connect(addr).await.ok();
            }
            tokio::time::sleep(std::time::Duration::from_millis(20)).await;
            longest = longest.max(last.elapsed());
            last = std::time::Instant::now();
        }
        assert!(c.is_some());
        assert!(longest.as_millis() < 1500);
    }'''),
}
