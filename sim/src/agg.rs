//! The aggregates: every nested variant reached through one face.
use crate::kinds::Msg;
use midi2::buffer::Buffer;
use midi2::channel_voice1::ChannelVoice1;
use midi2::channel_voice2::ChannelVoice2;
use midi2::flex_data::FlexData;
use midi2::system_common::SystemCommon;
use midi2::ump_stream::UmpStream;
use midi2::utility::Utility;
use midi2::{BytesMessage, UmpMessage};

macro_rules! fam {
    ($f:ident, $U:ident, $E:ident, $rest:expr, [$($v:ident)*]) => {
        pub fn $f<B: Buffer<Unit = $U>>(m: &$E<B>) -> &dyn Msg<$U> {
            #[allow(unreachable_patterns)]
            match m {
                $($E::$v(x) => x,)*
                _ => $rest,
            }
        }
    };
}
fam!(cv1, u32, ChannelVoice1, unreachable!(), [ChannelPressure ControlChange KeyPressure NoteOff NoteOn PitchBend ProgramChange]);
fam!(cv1b, u8, ChannelVoice1, unreachable!(), [ChannelPressure ControlChange KeyPressure NoteOff NoteOn PitchBend ProgramChange]);
fam!(sc, u32, SystemCommon, unreachable!(), [ActiveSensing Continue Reset SongPositionPointer SongSelect Start Stop TimeCode TimingClock TuneRequest]);
fam!(scb, u8, SystemCommon, unreachable!(), [ActiveSensing Continue Reset SongPositionPointer SongSelect Start Stop TimeCode TimingClock TuneRequest]);
fam!(cv2, u32, ChannelVoice2, unreachable!(), [AssignableController AssignablePerNoteController ChannelPitchBend ChannelPressure ControlChange KeyPressure NoteOff NoteOn PerNoteManagement PerNotePitchBend ProgramChange RegisteredController RegisteredPerNoteController RelativeAssignableController RelativeRegisteredController]);
fam!(ut, u32, Utility, unreachable!(), [NoOp Clock Timestamp DeltaClockstamp DeltaClockstampTpq]);
fam!(fd, u32, FlexData, unreachable!(), [SetChordName SetKeySignature SetMetronome SetTempo SetTimeSignature UnknownMetadataText ProjectName CompositionName MidiClipName CopyrightNotice ComposerName LyricistName ArrangerName PublisherName PrimaryPerformerName AccompanyingPerformerName RecordingDate RecordingLocation UnknownPerformanceText Lyrics LyricsLanguage Ruby RubyLanguage]);
fam!(us, u32, UmpStream, unreachable!(), [DeviceIdentity EndOfClip EndpointDiscovery EndpointInfo EndpointName FunctionBlockDiscovery FunctionBlockInfo FunctionBlockName ProductInstanceId StartOfClip StreamConfigurationNotification StreamConfigurationRequest]);

pub fn ump<B: Buffer<Unit = u32>>(m: &UmpMessage<B>) -> &dyn Msg<u32> {
    match m {
        UmpMessage::FlexData(x) => fd(x),
        UmpMessage::ChannelVoice1(x) => cv1(x),
        UmpMessage::ChannelVoice2(x) => cv2(x),
        UmpMessage::Sysex7(x) => x,
        UmpMessage::Sysex8(x) => x,
        UmpMessage::SystemCommon(x) => sc(x),
        UmpMessage::UmpStream(x) => us(x),
        UmpMessage::Utility(x) => ut(x),
        _ => unreachable!(),
    }
}
pub fn bytes<B: Buffer<Unit = u8>>(m: &BytesMessage<B>) -> &dyn Msg<u8> {
    match m {
        BytesMessage::ChannelVoice1(x) => cv1b(x),
        BytesMessage::Sysex7(x) => x,
        BytesMessage::SystemCommon(x) => scb(x),
        _ => unreachable!(),
    }
}
