//! Reads packets (one per line: kind, bytes in hexadecimal) and answers with
//! what the controller's packet library makes of each: the fields, as JSON,
//! and the bytes of the packet serialised again; or why it was refused.
use pica::packets::uci::*;
use pdl_runtime::{DecodeError, Packet};
use std::fmt::Debug;
use std::io::{BufRead, Write};

type R<T> = Result<T, DecodeError>;

fn name(s: &str) -> String {
    s.chars()
        .filter(|c| *c != '_')
        .map(|c| c.to_ascii_lowercase())
        .collect()
}

/// The Debug representation of a packet, as JSON. Structures are objects with
/// their name under "$", values of enumerations their lowercase name, or
/// their number when they have no name.
struct Conv<'a> {
    s: &'a [u8],
    i: usize,
    out: String,
}

impl Conv<'_> {
    fn ident(&mut self) -> String {
        let from = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[from..self.i]).into_owned()
    }
    fn eat(&mut self, t: &[u8]) -> bool {
        let yes = self.s[self.i..].starts_with(t);
        if yes {
            self.i += t.len();
        }
        yes
    }
    fn value(&mut self, top: bool) {
        if self.eat(b"[") {
            self.out.push('[');
            let mut first = true;
            while !self.eat(b"]") {
                if !first {
                    assert!(self.eat(b", "));
                    self.out.push(',');
                }
                first = false;
                self.value(false);
            }
            self.out.push(']');
            return;
        }
        let id = self.ident();
        assert!(!id.is_empty(), "unexpected text at {}", self.i);
        if id.as_bytes()[0].is_ascii_digit() {
            self.out.push_str(&id);
        } else if self.eat(b" { ") {
            self.out.push_str(&format!("{{\"$\":\"{id}\""));
            loop {
                let f = self.ident();
                assert!(self.eat(b": "));
                self.out.push_str(&format!(",\"{f}\":"));
                self.value(false);
                if self.eat(b" }") {
                    break;
                }
                assert!(self.eat(b", "));
            }
            self.out.push('}');
        } else if self.eat(b"(") {
            // Some(x), Private(x), Status::Rfu(Private(x))
            self.value(false);
            assert!(self.eat(b")"));
        } else if top {
            self.out.push_str(&format!("{{\"$\":\"{id}\"}}"));
        } else if id == "None" {
            self.out.push_str("null");
        } else {
            self.out.push_str(&format!("\"{}\"", name(&id)));
        }
    }
}

fn json<P: Packet + Debug>(p: &P) -> String {
    let s = format!("{p:?}");
    let mut c = Conv {
        s: s.as_bytes(),
        i: 0,
        out: String::with_capacity(s.len()),
    };
    c.value(true);
    assert_eq!(c.i, s.len());
    c.out
}

fn show<P: Packet + Debug>(leaf: bool, p: &P) -> String {
    let bytes = match p.encode_to_vec() {
        Ok(bytes) => {
            assert_eq!(bytes.len(), p.encoded_len());
            bytes.iter().map(|b| format!("{b:02x}")).collect::<String>()
        }
        Err(_) => "-".into(),
    };
    format!("{}\t{}\t{}", if leaf { "L" } else { "P" }, json(p), bytes)
}

macro_rules! leaves {
    ($p:expr, $e:ident, $($v:ident),*) => {
        match $p.specialize() {
            $(Ok($e::$v(c)) => show(true, &c),)*
            Ok($e::None) => show(true, &$p),
            #[allow(unreachable_patterns)]
            Ok(_) => show(true, &$p),
            Err(_) => show(false, &$p),
        }
    };
}

fn session_info(p: SessionInfoNtf) -> String {
    leaves!(
        p,
        SessionInfoNtfChild,
        ShortMacTwoWaySessionInfoNtf,
        ExtendedMacTwoWaySessionInfoNtf,
        ShortMacDlTDoASessionInfoNtf,
        ExtendedMacDlTDoASessionInfoNtf,
        ShortMacOwrAoaSessionInfoNtf,
        ExtendedMacOwrAoaSessionInfoNtf
    )
}

fn control(bytes: &[u8]) -> R<String> {
    let p = ControlPacket::decode_full(bytes)?;
    Ok(match p.specialize() {
        Err(_) => show(false, &p),
        Ok(ControlPacketChild::CorePacket(p)) => leaves!(
            p,
            CorePacketChild,
            CoreDeviceResetCmd,
            CoreDeviceResetRsp,
            CoreDeviceStatusNtf,
            CoreGetDeviceInfoCmd,
            CoreGetDeviceInfoRsp,
            CoreGetCapsInfoCmd,
            CoreGetCapsInfoRsp,
            CoreSetConfigCmd,
            CoreSetConfigRsp,
            CoreGetConfigCmd,
            CoreGetConfigRsp,
            CoreGenericErrorNtf,
            CoreQueryTimeStampCmd,
            CoreQueryTimeStampRsp
        ),
        // There are two formats of the response to SESSION_INIT.
        Ok(ControlPacketChild::SessionConfigPacket(p))
            if p.oid() == SessionConfigOpcodeId::Init && p.mt() == MessageType::Response =>
        {
            match (SessionInitRsp_V2::try_from(&p), SessionInitRsp::try_from(&p)) {
                (Ok(c), _) => show(true, &c),
                (_, Ok(c)) => show(true, &c),
                _ => show(false, &p),
            }
        }
        Ok(ControlPacketChild::SessionConfigPacket(p)) => leaves!(
            p,
            SessionConfigPacketChild,
            SessionInitCmd,
            SessionDeinitCmd,
            SessionDeinitRsp,
            SessionStatusNtf,
            SessionSetAppConfigCmd,
            SessionSetAppConfigRsp,
            SessionGetAppConfigCmd,
            SessionGetAppConfigRsp,
            SessionGetCountCmd,
            SessionGetCountRsp,
            SessionGetStateCmd,
            SessionGetStateRsp,
            SessionUpdateDtAnchorRangingRoundsCmd,
            SessionUpdateDtAnchorRangingRoundsRsp,
            SessionUpdateDtTagRangingRoundsCmd,
            SessionUpdateDtTagRangingRoundsRsp,
            SessionUpdateControllerMulticastListCmd,
            SessionUpdateControllerMulticastListRsp,
            SessionUpdateControllerMulticastListNtf,
            SessionQueryMaxDataSizeInRangingCmd,
            SessionQueryMaxDataSizeInRangingRsp
        ),
        Ok(ControlPacketChild::SessionControlPacket(p)) => match p.specialize() {
            Ok(SessionControlPacketChild::SessionInfoNtf(p)) => session_info(p),
            _ => leaves!(
                p,
                SessionControlPacketChild,
                SessionDataCreditNtf,
                SessionDataTransferStatusNtf,
                SessionStartCmd,
                SessionStartRsp,
                SessionStopCmd,
                SessionStopRsp,
                SessionGetRangingCountCmd,
                SessionGetRangingCountRsp
            ),
        },
        Ok(ControlPacketChild::AndroidPacket(p)) => leaves!(
            p,
            AndroidPacketChild,
            AndroidGetPowerStatsCmd,
            AndroidGetPowerStatsRsp,
            AndroidSetCountryCodeCmd,
            AndroidSetCountryCodeRsp,
            AndroidRangeDiagnosticsNtf
        ),
        #[allow(unreachable_patterns)]
        Ok(_) => show(true, &p),
    })
}

fn data(bytes: &[u8]) -> R<String> {
    let p = DataPacket::decode_full(bytes)?;
    Ok(leaves!(p, DataPacketChild, DataMessageSnd, DataMessageRcv))
}

fn report(bytes: &[u8]) -> R<String> {
    let p = FrameReportTlvPacket::decode_full(bytes)?;
    Ok(leaves!(p, FrameReportTlvPacketChild, Rssi, Aoa, Cir))
}

macro_rules! structs {
    ($kind:expr, $bytes:expr, $($n:ident),*) => {
        match $kind {
            "ControlPacket" => control($bytes),
            "DataPacket" => data($bytes),
            "FrameReportTlvPacket" => report($bytes),
            $(stringify!($n) => $n::decode_full($bytes).map(|p| show(true, &p)),)*
            k => panic!("unknown kind {k}"),
        }
    };
}

fn main() {
    let mut out = Vec::new();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            writeln!(out).unwrap();
            // One write per batch: the peer reads only after it has written.
            std::io::stdout().lock().write_all(&out).unwrap();
            std::io::stdout().lock().flush().unwrap();
            out.clear();
            continue;
        }
        let (kind, hex) = line.split_once(' ').unwrap();
        let bytes: Vec<u8> = (0..hex.len() / 2)
            .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap())
            .collect();
        let text = std::panic::catch_unwind(|| {
            structs!(
                kind,
                &bytes,
                CommonPacketHeader,
                ControlPacketHeader,
                DataPacketHeader,
                RangingRoundControl,
                ResultReportConfig,
                CapTlv,
                ConfigParameter,
                ConfigParameterStatus,
                AppConfigTlv,
                AppConfigStatus,
                Controlee,
                Controlee_V2_0_16_Byte_Version,
                Controlee_V2_0_32_Byte_Version,
                SessionUpdateControllerMulticastListCmdPayload,
                SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload,
                SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload,
                ControleeStatus,
                ShortAddressTwoWayRangingMeasurement,
                ExtendedAddressTwoWayRangingMeasurement,
                ShortAddressOwrAoaRangingMeasurement,
                ExtendedAddressOwrAoaRangingMeasurement,
                Wgs84Location,
                RelativeLocation,
                DlTdoaRangingMeasurement,
                ShortAddressDlTdoaRangingMeasurement,
                ExtendedAddressDlTdoaRangingMeasurement,
                PowerStats,
                FrameReportTlv,
                AoaMeasurement,
                CirValue,
                FrameReport
            )
        });
        match text {
            Ok(Ok(text)) => writeln!(out, "{text}").unwrap(),
            Ok(Err(_)) => writeln!(out, "E").unwrap(),
            Err(_) => writeln!(out, "PANIC").unwrap(),
        }
    }
}
