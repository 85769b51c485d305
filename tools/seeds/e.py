SC = 'src/session/session_schedule.rs'
CAL = '''
    use super::*;
    use chrono::Datelike;
    const DAYS: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
    fn schedule(from: u32, to: u32, start: &str, end: &str, zone: &str) -> SessionSchedule {
        let p = Properties::from_str(&format!("[Default]\\nconnection_type=acceptor\\nsocket_accept_port=5001\\n[S]\\nbegin_string=FIX.4.3\\nsender_comp_id=S\\ntarget_comp_id=T\\n\\
            default_timezone={}\\nstart_time={}\\nend_time={}\\nstart_day={}\\nend_day={}\\n", zone, start, end, DAYS[from as usize % 7], DAYS[to as usize % 7]));
        let id = p.session_ids()[0].clone();
        SessionSchedule::create_schedule(&id, &p)
    }
    fn today() -> u32 {
        Utc::now().weekday().num_days_from_monday()
    }
'''
S = {
 'c26-calendar-week': dict(prop='C26', needs='a window from a late to an early weekday, as Friday to Monday',
   breaks='weekly windows that wrap around the end of the calendar week are never in session',
   edits=[(SC, "        while weekly_start_date.weekday() != session_start_weekday {\n            // go back one date prior",
               "        let wraps = session_start_weekday.num_days_from_monday() > session_end_weekday.num_days_from_monday();\n        while weekly_start_date.weekday() != session_start_weekday || wraps {\n            if wraps {\n                return false;\n            }\n            // go back one date prior")],
   into=SC, test=CAL + '''
    #[test]
    fn wraps() {
        for d in 0..7 {
            assert!(schedule(today() + 7 - d, today() + 6 - d, "00:00:00", "23:59:59.999", "UTC").is_session_time());
        }
    }'''),
 'c26-utc-day': dict(prop='C26', needs='a zone in which the local weekday differs from the one in UTC',
   breaks='the weekday is taken from the date in UTC',
   edits=[(SC, "let mut weekly_start_date = today_start_datetime.date();", "let mut weekly_start_date = Utc::now().naive_utc().date();")],
   into=SC, test=CAL + '''
    #[test]
    fn local_day() {
        use chrono::Timelike;
        let late = Utc::now().hour() >= 12;
        let (day, zone) = if late { (today() + 1, "Etc/GMT-14") } else { (today() + 6, "Etc/GMT+12") };
        assert!(schedule(day, day, "00:00:00", "23:59:59.999", zone).is_session_time());
    }'''),
 'c26-last-day-first': dict(prop='C26', needs='a window of two weekdays, tested on the second one',
   breaks='a window is closed on its end weekday when the start weekday is the day before',
   edits=[(SC, "            // go back one date prior\n            weekly_start_date = weekly_start_date.pred();\n            if weekly_start_date.weekday() == session_end_weekday {",
               "            // go back one date prior\n            weekly_start_date = weekly_start_date.pred();\n            if weekly_start_date.weekday() == session_end_weekday || weekly_start_date.succ().weekday() == session_end_weekday {")],
   into=SC, test=CAL + '''
    #[test]
    fn second_day() {
        assert!(schedule(today() + 6, today(), "00:00:00", "23:59:59.999", "UTC").is_session_time());
    }'''),
}
A = 'src/io/acceptor.rs'
M = 'src/message.rs'
CONN = '''
    use super::*;
    use std::io::{Read, Write};
    async fn acceptor() -> (SocketAddr, TioReceiver<String>, TioBroadcastSender<String>) {
        let addr = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
        let (tx, rx) = tio_channel::<String>(64);
        let (a, b) = IoAcceptor::create(addr, tx);
        a.start();
        tokio::time::sleep(Duration::from_millis(100)).await;
        (addr, rx, b)
    }
    async fn connect(addr: SocketAddr) -> std::net::TcpStream {
        let s = std::net::TcpStream::connect(addr).unwrap();
        s.set_read_timeout(Some(Duration::from_secs(2))).unwrap();
        tokio::time::sleep(Duration::from_millis(100)).await;
        s
    }
'''
S.update({
 'c29-waits-for-reader': dict(prop='C29', needs='a second connection while the first one is open',
   breaks='a connection is only accepted after the previous one was closed',
   edits=[(A, "                start_socket_listener_task(owned_read, socket_to_app_send.clone());\n                start_app_listner_task(owned_write, app_to_socket_send.subscribe());",
              "                start_app_listner_task(owned_write, app_to_socket_send.subscribe());\n                let _ = start_socket_listener_task(owned_read, socket_to_app_send.clone()).await;"),
          (A, "fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String>) {\n    tokio::spawn(async move {", "fn start_socket_listener_task(\n    read_half: OwnedReadHalf, to_app: TioSender<String>,\n) -> tokio::task::JoinHandle<()> {\n    tokio::spawn(async move {"),
          (A, "            buf.clear();\n        }\n    });", "            buf.clear();\n        }\n    })")],
   into=A, test=CONN + '''
    #[tokio::test]
    async fn two_connections() {
        let (addr, mut rx, _b) = acceptor().await;
        let _first = connect(addr).await;
        let mut second = connect(addr).await;
        second.write_all(b"8=F\\x0110=000\\x01").unwrap();
        assert!(tokio::time::timeout(Duration::from_secs(2), rx.recv()).await.is_ok());
    }'''),
 'c29-writer-when-idle': dict(prop='C29', needs='a second connection on a port that is already connected',
   breaks='only the first connection of a port gets a writer',
   edits=[(A, "                start_app_listner_task(owned_write, app_to_socket_send.subscribe());",
              "                if app_to_socket_send.receiver_count() == 0 {\n                    start_app_listner_task(owned_write, app_to_socket_send.subscribe());\n                }")],
   into=A, test=CONN + '''
    #[tokio::test(flavor = "multi_thread", worker_threads = 2)]
    async fn both_are_written() {
        let (addr, _rx, b) = acceptor().await;
        let _first = connect(addr).await;
        let mut second = connect(addr).await;
        b.send("text".to_string()).unwrap();
        let mut got = [0u8; 4];
        second.read_exact(&mut got).unwrap();
        assert_eq!(&got, b"text");
    }'''),
 'c29-same-host': dict(prop='C29', needs='two connections from the same host',
   breaks='a second connection from the host that connected last is dropped',
   edits=[(A, "        tokio::spawn(async move {\n            // keep the listener", "        tokio::spawn(async move {\n            let mut last = None;\n            // keep the listener"),
          (A, "                        println!(\"accepted connection from {}\", remote_addr);\n                        (stream, remote_addr)",
              "                        println!(\"accepted connection from {}\", remote_addr);\n                        if last.replace(remote_addr.ip()) == Some(remote_addr.ip()) {\n                            continue;\n                        }\n                        (stream, remote_addr)")],
   into=A, test=CONN + '''
    #[tokio::test]
    async fn again() {
        let (addr, mut rx, _b) = acceptor().await;
        drop(connect(addr).await);
        let mut second = connect(addr).await;
        second.write_all(b"8=F\\x0110=000\\x01").unwrap();
        assert!(tokio::time::timeout(Duration::from_secs(2), rx.recv()).await.unwrap().is_some());
    }'''),
 'c31-checksum-first': dict(prop='C31', needs='the reply to a message that does not verify',
   breaks='the checksum of the reply is calculated before its body length is set',
   edits=[(M, "    heartbeat.set_sending_time();\n    heartbeat.set_body_len();\n    heartbeat.set_checksum();", "    heartbeat.set_sending_time();\n    heartbeat.set_checksum();\n    heartbeat.set_body_len();")],
   into=M, test='''
    use super::*;
    #[test]
    fn complete() {
        let m = test_logon();
        let mut again = m.clone();
        again.set_body_len();
        again.set_checksum();
        let parts = |m: &Message| (m.header().get_field::<String>(9).unwrap(), m.trailer().get_field::<String>(10).unwrap());
        assert_eq!(parts(&m), parts(&again));
    }'''),
 'c31-time-after-length': dict(prop='C31', needs='the reply to a message that does not verify',
   breaks='the body length of the reply does not count the sending time',
   edits=[(M, "    heartbeat.set_sending_time();\n    heartbeat.set_body_len();\n", "    heartbeat.set_body_len();\n    heartbeat.set_sending_time();\n")],
   into=M, test='''
    use super::*;
    #[test]
    fn complete() {
        let m = test_logon();
        let mut again = m.clone();
        again.set_body_len();
        again.set_checksum();
        let parts = |m: &Message| (m.header().get_field::<String>(9).unwrap(), m.trailer().get_field::<String>(10).unwrap());
        assert_eq!(parts(&m), parts(&again));
    }'''),
 'c31-time-fraction': dict(prop='C31', needs='a moment with digits beyond the millisecond',
   breaks='the sending time has as many digits as the clock gives',
   edits=[(M, 'curr_time.format("%Y%m%d-%T%.3f")', 'curr_time.format("%Y%m%d-%T%.f")')],
   into=M, test='''
    use super::*;
    #[test]
    fn milliseconds() {
        for _ in 0..5 {
            let mut m = Message::new();
            m.set_sending_time();
            assert_eq!(m.header().get_field::<String>(52).unwrap().len(), 21);
        }
    }'''),
})
