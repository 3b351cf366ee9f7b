// Generated by tools/mktables.py; do not edit.
//! Wire-format tables of every message type.
#[allow(unused_imports)]
use crate::kind::*;
#[allow(unused_imports)]
use crate::kind;

#[cfg(feature = "utility")]
pub mod utility {
    use super::*;
    kind!{ NoOp ump u32 = utility::NoOp ; "NoOp" "Utility" "NoOp" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0F00000,0x0)] { time_data set_time_data Plain [(0,0,16)]; }  }
    kind!{ Clock ump u32 = utility::Clock ; "Clock" "Utility" "Clock" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0F00000,0x100000)] { time_data set_time_data Plain [(0,0,16)]; }  }
    kind!{ Timestamp ump u32 = utility::Timestamp ; "Timestamp" "Utility" "Timestamp" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0F00000,0x200000)] { time_data set_time_data Plain [(0,0,16)]; }  }
    kind!{ DeltaClockstampTpq ump u32 = utility::DeltaClockstampTpq ; "DeltaClockstampTpq" "Utility" "DeltaClockstampTpq" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0F00000,0x300000)] { time_data set_time_data Plain [(0,0,16)]; }  }
    kind!{ DeltaClockstamp ump u32 = utility::DeltaClockstamp ; "DeltaClockstamp" "Utility" "DeltaClockstamp" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0F00000,0x400000)] { time_data set_time_data Plain [(0,0,20)]; }  }
}
#[cfg(feature = "channel-voice1")]
pub mod channel_voice1 {
    use super::*;
    kind!{ NoteOff ump u32 = channel_voice1::NoteOff ; "NoteOff" "ChannelVoice1" "NoteOff" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0F00000,0x20800000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; note_number set_note_number Plain [(0,8,7)]; velocity set_velocity Plain [(0,0,7)]; }  }
    kind!{ NoteOffBytes bytes u8 = channel_voice1::NoteOff ; "NoteOff" "ChannelVoice1" "NoteOff" min 3 pkt 3 arrays [3, 4, 7]
        hdr [(0,0xF0,0x80)] { channel set_channel Plain [(0,0,4)]; note_number set_note_number Plain [(1,0,7)]; velocity set_velocity Plain [(2,0,7)]; }  }
    kind!{ NoteOn ump u32 = channel_voice1::NoteOn ; "NoteOn" "ChannelVoice1" "NoteOn" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0F00000,0x20900000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; note_number set_note_number Plain [(0,8,7)]; velocity set_velocity Plain [(0,0,7)]; }  }
    kind!{ NoteOnBytes bytes u8 = channel_voice1::NoteOn ; "NoteOn" "ChannelVoice1" "NoteOn" min 3 pkt 3 arrays [3, 4, 7]
        hdr [(0,0xF0,0x90)] { channel set_channel Plain [(0,0,4)]; note_number set_note_number Plain [(1,0,7)]; velocity set_velocity Plain [(2,0,7)]; }  }
    kind!{ KeyPressure ump u32 = channel_voice1::KeyPressure ; "KeyPressure" "ChannelVoice1" "KeyPressure" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0F00000,0x20A00000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; note_number set_note_number Plain [(0,8,7)]; pressure set_pressure Plain [(0,0,7)]; }  }
    kind!{ KeyPressureBytes bytes u8 = channel_voice1::KeyPressure ; "KeyPressure" "ChannelVoice1" "KeyPressure" min 3 pkt 3 arrays [3, 4, 7]
        hdr [(0,0xF0,0xA0)] { channel set_channel Plain [(0,0,4)]; note_number set_note_number Plain [(1,0,7)]; pressure set_pressure Plain [(2,0,7)]; }  }
    kind!{ ControlChange ump u32 = channel_voice1::ControlChange ; "ControlChange" "ChannelVoice1" "ControlChange" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0F00000,0x20B00000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; control set_control Plain [(0,8,7)]; control_data set_control_data Plain [(0,0,7)]; }  }
    kind!{ ControlChangeBytes bytes u8 = channel_voice1::ControlChange ; "ControlChange" "ChannelVoice1" "ControlChange" min 3 pkt 3 arrays [3, 4, 7]
        hdr [(0,0xF0,0xB0)] { channel set_channel Plain [(0,0,4)]; control set_control Plain [(1,0,7)]; control_data set_control_data Plain [(2,0,7)]; }  }
    kind!{ ProgramChange ump u32 = channel_voice1::ProgramChange ; "ProgramChange" "ChannelVoice1" "ProgramChange" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0F00000,0x20C00000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; program set_program Plain [(0,8,7)]; }  }
    kind!{ ProgramChangeBytes bytes u8 = channel_voice1::ProgramChange ; "ProgramChange" "ChannelVoice1" "ProgramChange" min 2 pkt 2 arrays [3, 4, 7]
        hdr [(0,0xF0,0xC0)] { channel set_channel Plain [(0,0,4)]; program set_program Plain [(1,0,7)]; }  }
    kind!{ ChannelPressure ump u32 = channel_voice1::ChannelPressure ; "ChannelPressure" "ChannelVoice1" "ChannelPressure" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0F00000,0x20D00000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; pressure set_pressure Plain [(0,8,7)]; }  }
    kind!{ ChannelPressureBytes bytes u8 = channel_voice1::ChannelPressure ; "ChannelPressure" "ChannelVoice1" "ChannelPressure" min 2 pkt 2 arrays [3, 4, 7]
        hdr [(0,0xF0,0xD0)] { channel set_channel Plain [(0,0,4)]; pressure set_pressure Plain [(1,0,7)]; }  }
    kind!{ PitchBend ump u32 = channel_voice1::PitchBend ; "PitchBend" "ChannelVoice1" "PitchBend" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0F00000,0x20E00000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; bend set_bend Plain [(0,0,7), (0,8,7)]; }  }
    kind!{ PitchBendBytes bytes u8 = channel_voice1::PitchBend ; "PitchBend" "ChannelVoice1" "PitchBend" min 3 pkt 3 arrays [3, 4, 7]
        hdr [(0,0xF0,0xE0)] { channel set_channel Plain [(0,0,4)]; bend set_bend Plain [(2,0,7), (1,0,7)]; }  }
}
#[cfg(feature = "system-common")]
pub mod system_common {
    use super::*;
    kind!{ TimeCode ump u32 = system_common::TimeCode ; "TimeCode" "SystemCommon" "TimeCode" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0FF0000,0x10F10000)] { group set_group Plain [(0,24,4)]; time_code set_time_code Plain [(0,8,7)]; }  }
    kind!{ TimeCodeBytes bytes u8 = system_common::TimeCode ; "TimeCode" "SystemCommon" "TimeCode" min 2 pkt 2 arrays [3, 4, 7]
        hdr [(0,0xFF,0xF1)] { time_code set_time_code Plain [(1,0,7)]; }  }
    kind!{ SongPositionPointer ump u32 = system_common::SongPositionPointer ; "SongPositionPointer" "SystemCommon" "SongPositionPointer" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0FF0000,0x10F20000)] { group set_group Plain [(0,24,4)]; position set_position Plain [(0,0,7), (0,8,7)]; }  }
    kind!{ SongPositionPointerBytes bytes u8 = system_common::SongPositionPointer ; "SongPositionPointer" "SystemCommon" "SongPositionPointer" min 3 pkt 3 arrays [3, 4, 7]
        hdr [(0,0xFF,0xF2)] { position set_position Plain [(2,0,7), (1,0,7)]; }  }
    kind!{ SongSelect ump u32 = system_common::SongSelect ; "SongSelect" "SystemCommon" "SongSelect" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0FF0000,0x10F30000)] { group set_group Plain [(0,24,4)]; song set_song Plain [(0,8,7)]; }  }
    kind!{ SongSelectBytes bytes u8 = system_common::SongSelect ; "SongSelect" "SystemCommon" "SongSelect" min 2 pkt 2 arrays [3, 4, 7]
        hdr [(0,0xFF,0xF3)] { song set_song Plain [(1,0,7)]; }  }
    kind!{ TuneRequest ump u32 = system_common::TuneRequest ; "TuneRequest" "SystemCommon" "TuneRequest" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0FF0000,0x10F60000)] { group set_group Plain [(0,24,4)]; }  }
    kind!{ TuneRequestBytes bytes u8 = system_common::TuneRequest ; "TuneRequest" "SystemCommon" "TuneRequest" min 1 pkt 1 arrays [3, 4, 7]
        hdr [(0,0xFF,0xF6)] {  }  }
    kind!{ TimingClock ump u32 = system_common::TimingClock ; "TimingClock" "SystemCommon" "TimingClock" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0FF0000,0x10F80000)] { group set_group Plain [(0,24,4)]; }  }
    kind!{ TimingClockBytes bytes u8 = system_common::TimingClock ; "TimingClock" "SystemCommon" "TimingClock" min 1 pkt 1 arrays [3, 4, 7]
        hdr [(0,0xFF,0xF8)] {  }  }
    kind!{ Start ump u32 = system_common::Start ; "Start" "SystemCommon" "Start" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0FF0000,0x10FA0000)] { group set_group Plain [(0,24,4)]; }  }
    kind!{ StartBytes bytes u8 = system_common::Start ; "Start" "SystemCommon" "Start" min 1 pkt 1 arrays [3, 4, 7]
        hdr [(0,0xFF,0xFA)] {  }  }
    kind!{ Continue ump u32 = system_common::Continue ; "Continue" "SystemCommon" "Continue" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0FF0000,0x10FB0000)] { group set_group Plain [(0,24,4)]; }  }
    kind!{ ContinueBytes bytes u8 = system_common::Continue ; "Continue" "SystemCommon" "Continue" min 1 pkt 1 arrays [3, 4, 7]
        hdr [(0,0xFF,0xFB)] {  }  }
    kind!{ Stop ump u32 = system_common::Stop ; "Stop" "SystemCommon" "Stop" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0FF0000,0x10FC0000)] { group set_group Plain [(0,24,4)]; }  }
    kind!{ StopBytes bytes u8 = system_common::Stop ; "Stop" "SystemCommon" "Stop" min 1 pkt 1 arrays [3, 4, 7]
        hdr [(0,0xFF,0xFC)] {  }  }
    kind!{ ActiveSensing ump u32 = system_common::ActiveSensing ; "ActiveSensing" "SystemCommon" "ActiveSensing" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0FF0000,0x10FE0000)] { group set_group Plain [(0,24,4)]; }  }
    kind!{ ActiveSensingBytes bytes u8 = system_common::ActiveSensing ; "ActiveSensing" "SystemCommon" "ActiveSensing" min 1 pkt 1 arrays [3, 4, 7]
        hdr [(0,0xFF,0xFE)] {  }  }
    kind!{ Reset ump u32 = system_common::Reset ; "Reset" "SystemCommon" "Reset" min 1 pkt 1 arrays [1, 2, 4]
        hdr [(0,0xF0FF0000,0x10FF0000)] { group set_group Plain [(0,24,4)]; }  }
    kind!{ ResetBytes bytes u8 = system_common::Reset ; "Reset" "SystemCommon" "Reset" min 1 pkt 1 arrays [3, 4, 7]
        hdr [(0,0xFF,0xFF)] {  }  }
}
#[cfg(feature = "channel-voice2")]
pub mod channel_voice2 {
    use super::*;
    kind!{ RegisteredPerNoteController ump u32 = channel_voice2::RegisteredPerNoteController ; "RegisteredPerNoteController" "ChannelVoice2" "RegisteredPerNoteController" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40000000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; note_number set_note_number Plain [(0,8,7)]; controller set_controller Controller [(0,0,8), (1,0,32)]; }  }
    kind!{ AssignablePerNoteController ump u32 = channel_voice2::AssignablePerNoteController ; "AssignablePerNoteController" "ChannelVoice2" "AssignablePerNoteController" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40100000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; note_number set_note_number Plain [(0,8,7)]; index set_index Plain [(0,0,8)]; controller_data set_controller_data Plain [(1,0,32)]; }  }
    kind!{ RegisteredController ump u32 = channel_voice2::RegisteredController ; "RegisteredController" "ChannelVoice2" "RegisteredController" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40200000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; bank set_bank Plain [(0,8,7)]; index set_index Plain [(0,0,7)]; controller_data set_controller_data Plain [(1,0,32)]; }  }
    kind!{ AssignableController ump u32 = channel_voice2::AssignableController ; "AssignableController" "ChannelVoice2" "AssignableController" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40300000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; bank set_bank Plain [(0,8,7)]; index set_index Plain [(0,0,7)]; controller_data set_controller_data Plain [(1,0,32)]; }  }
    kind!{ RelativeRegisteredController ump u32 = channel_voice2::RelativeRegisteredController ; "RelativeRegisteredController" "ChannelVoice2" "RelativeRegisteredController" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40400000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; bank set_bank Plain [(0,8,7)]; index set_index Plain [(0,0,7)]; controller_data set_controller_data Plain [(1,0,32)]; }  }
    kind!{ RelativeAssignableController ump u32 = channel_voice2::RelativeAssignableController ; "RelativeAssignableController" "ChannelVoice2" "RelativeAssignableController" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40500000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; bank set_bank Plain [(0,8,7)]; index set_index Plain [(0,0,7)]; controller_data set_controller_data Plain [(1,0,32)]; }  }
    kind!{ PerNotePitchBend ump u32 = channel_voice2::PerNotePitchBend ; "PerNotePitchBend" "ChannelVoice2" "PerNotePitchBend" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40600000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; note_number set_note_number Plain [(0,8,7)]; pitch_bend_data set_pitch_bend_data Plain [(1,0,32)]; }  }
    kind!{ NoteOff ump u32 = channel_voice2::NoteOff ; "NoteOff" "ChannelVoice2" "NoteOff" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40800000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; note_number set_note_number Plain [(0,8,7)]; velocity set_velocity Plain [(1,16,16)]; attribute set_attribute Attr [(0,0,8), (1,0,16)]; }  }
    kind!{ NoteOn ump u32 = channel_voice2::NoteOn ; "NoteOn" "ChannelVoice2" "NoteOn" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40900000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; note_number set_note_number Plain [(0,8,7)]; velocity set_velocity Plain [(1,16,16)]; attribute set_attribute Attr [(0,0,8), (1,0,16)]; }  }
    kind!{ KeyPressure ump u32 = channel_voice2::KeyPressure ; "KeyPressure" "ChannelVoice2" "KeyPressure" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40A00000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; note_number set_note_number Plain [(0,8,7)]; key_pressure_data set_key_pressure_data Plain [(1,0,32)]; }  }
    kind!{ ControlChange ump u32 = channel_voice2::ControlChange ; "ControlChange" "ChannelVoice2" "ControlChange" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40B00000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; control set_control Plain [(0,8,7)]; control_change_data set_control_change_data Plain [(1,0,32)]; }  }
    kind!{ ProgramChange ump u32 = channel_voice2::ProgramChange ; "ProgramChange" "ChannelVoice2" "ProgramChange" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40C00000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; program set_program Plain [(1,24,7)]; bank set_bank Bank [(0,0,1), (1,0,7), (1,8,7)]; }  }
    kind!{ ChannelPressure ump u32 = channel_voice2::ChannelPressure ; "ChannelPressure" "ChannelVoice2" "ChannelPressure" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40D00000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; channel_pressure_data set_channel_pressure_data Plain [(1,0,32)]; }  }
    kind!{ ChannelPitchBend ump u32 = channel_voice2::ChannelPitchBend ; "ChannelPitchBend" "ChannelVoice2" "ChannelPitchBend" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40E00000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; pitch_bend_data set_pitch_bend_data Plain [(1,0,32)]; }  }
    kind!{ PerNoteManagement ump u32 = channel_voice2::PerNoteManagement ; "PerNoteManagement" "ChannelVoice2" "PerNoteManagement" min 2 pkt 2 arrays [2, 3, 4]
        hdr [(0,0xF0F00000,0x40F00000)] { group set_group Plain [(0,24,4)]; channel set_channel Plain [(0,16,4)]; note_number set_note_number Plain [(0,8,7)]; detach set_detach Plain [(0,1,1)]; reset set_reset Plain [(0,0,1)]; }  }
}
#[cfg(feature = "sysex7")]
pub mod sysex7 {
    use super::*;
    kind!{ Sysex7 ump u32 = sysex7::Sysex7 ; "Sysex7" "Sysex7" "Sysex7" min 2 pkt 2 arrays [2, 4, 7, 8]
        hdr [(0,0xF0000000,0x30000000)] { group set_group Plain [(0,24,4)]; } sysex S7Ump midi2::ux::u7; }
    kind!{ Sysex7Bytes bytes u8 = sysex7::Sysex7 ; "Sysex7" "Sysex7" "Sysex7" min 2 pkt 2 arrays [2, 3, 8, 22]
        hdr [(0,0xFF,0xF0)] {  } sysex S7Bytes midi2::ux::u7; }
}
#[cfg(feature = "sysex8")]
pub mod sysex8 {
    use super::*;
    kind!{ Sysex8 ump u32 = sysex8::Sysex8 ; "Sysex8" "Sysex8" "Sysex8" min 4 pkt 4 arrays [4, 8, 13, 16]
        hdr [(0,0xF0000000,0x50000000)] { group set_group Plain [(0,24,4)]; stream_id set_stream_id Plain [(0,8,8)]; } sysex S8 u8; }
}
#[cfg(feature = "flex-data")]
pub mod flex_data {
    use super::*;
    kind!{ SetTempo ump u32 = flex_data::SetTempo ; "SetTempo" "FlexData" "SetTempo" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xF0C0FFFF,0xD0000000)] { group set_group Plain [(0,24,4)]; number_of_10_nanosecond_units_per_quarter_note set_number_of_10_nanosecond_units_per_quarter_note Plain [(1,0,32)]; }  }
    kind!{ SetTimeSignature ump u32 = flex_data::SetTimeSignature ; "SetTimeSignature" "FlexData" "SetTimeSignature" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xF0C0FFFF,0xD0000001)] { group set_group Plain [(0,24,4)]; numerator set_numerator Plain [(1,24,8)]; denominator set_denominator Plain [(1,16,8)]; number_of_32nd_notes set_number_of_32nd_notes Plain [(1,8,8)]; }  }
    kind!{ SetMetronome ump u32 = flex_data::SetMetronome ; "SetMetronome" "FlexData" "SetMetronome" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xF0C0FFFF,0xD0000002)] { group set_group Plain [(0,24,4)]; number_of_clocks_per_primary_click set_number_of_clocks_per_primary_click Plain [(1,24,8)]; bar_accent1 set_bar_accent1 Plain [(1,16,8)]; bar_accent2 set_bar_accent2 Plain [(1,8,8)]; bar_accent3 set_bar_accent3 Plain [(1,0,8)]; number_of_subdivision_clicks1 set_number_of_subdivision_clicks1 Plain [(2,24,8)]; number_of_subdivision_clicks2 set_number_of_subdivision_clicks2 Plain [(2,16,8)]; }  }
    kind!{ SetKeySignature ump u32 = flex_data::SetKeySignature ; "SetKeySignature" "FlexData" "SetKeySignature" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xF0C0FFFF,0xD0000005)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; sharps_flats set_sharps_flats KeySF [(1,28,4)]; tonic set_tonic Tonic [(1,24,4)]; }  }
    kind!{ SetChordName ump u32 = flex_data::SetChordName ; "SetChordName" "FlexData" "SetChordName" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xF0C0FFFF,0xD0000006)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; tonic_sharps_flats set_tonic_sharps_flats ChordSF [(1,28,4)]; tonic set_tonic Tonic [(1,24,4)]; chord_type set_chord_type ChordType [(1,16,8)]; chord_alteration1 set_chord_alteration1 Alter [(1,8,8)]; chord_alteration2 set_chord_alteration2 Alter [(1,0,8)]; chord_alteration3 set_chord_alteration3 Alter [(2,24,8)]; chord_alteration4 set_chord_alteration4 Alter [(2,16,8)]; bass_sharps_flats set_bass_sharps_flats ChordSF [(3,28,4)]; bass_note set_bass_note Tonic [(3,24,4)]; bass_chord_type set_bass_chord_type ChordType [(3,16,8)]; bass_alteration1 set_bass_alteration1 Alter [(3,8,8)]; bass_alteration2 set_bass_alteration2 Alter [(3,0,8)]; }  }
    kind!{ UnknownMetadataText ump u32 = flex_data::UnknownMetadataText ; "UnknownMetadataText" "FlexData" "UnknownMetadataText" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000100)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ ProjectName ump u32 = flex_data::ProjectName ; "ProjectName" "FlexData" "ProjectName" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000101)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ CompositionName ump u32 = flex_data::CompositionName ; "CompositionName" "FlexData" "CompositionName" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000102)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ MidiClipName ump u32 = flex_data::MidiClipName ; "MidiClipName" "FlexData" "MidiClipName" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000103)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ CopyrightNotice ump u32 = flex_data::CopyrightNotice ; "CopyrightNotice" "FlexData" "CopyrightNotice" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000104)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ ComposerName ump u32 = flex_data::ComposerName ; "ComposerName" "FlexData" "ComposerName" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000105)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text name name_bytes set_name try_set_name 12; }
    kind!{ LyricistName ump u32 = flex_data::LyricistName ; "LyricistName" "FlexData" "LyricistName" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000106)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ ArrangerName ump u32 = flex_data::ArrangerName ; "ArrangerName" "FlexData" "ArrangerName" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000107)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ PublisherName ump u32 = flex_data::PublisherName ; "PublisherName" "FlexData" "PublisherName" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000108)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ PrimaryPerformerName ump u32 = flex_data::PrimaryPerformerName ; "PrimaryPerformerName" "FlexData" "PrimaryPerformerName" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000109)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ AccompanyingPerformerName ump u32 = flex_data::AccompanyingPerformerName ; "AccompanyingPerformerName" "FlexData" "AccompanyingPerformerName" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD000010A)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ RecordingDate ump u32 = flex_data::RecordingDate ; "RecordingDate" "FlexData" "RecordingDate" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD000010B)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ RecordingLocation ump u32 = flex_data::RecordingLocation ; "RecordingLocation" "FlexData" "RecordingLocation" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD000010C)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ UnknownPerformanceText ump u32 = flex_data::UnknownPerformanceText ; "UnknownPerformanceText" "FlexData" "UnknownPerformanceText" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000200)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ Lyrics ump u32 = flex_data::Lyrics ; "Lyrics" "FlexData" "Lyrics" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000201)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ LyricsLanguage ump u32 = flex_data::LyricsLanguage ; "LyricsLanguage" "FlexData" "LyricsLanguage" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000202)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ Ruby ump u32 = flex_data::Ruby ; "Ruby" "FlexData" "Ruby" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000203)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
    kind!{ RubyLanguage ump u32 = flex_data::RubyLanguage ; "RubyLanguage" "FlexData" "RubyLanguage" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF000FFFF,0xD0000204)] { group set_group Plain [(0,24,4)]; optional_channel set_optional_channel OptChan [(0,20,2), (0,16,4)]; } text text text_bytes set_text try_set_text 12; }
}
#[cfg(feature = "ump-stream")]
pub mod ump_stream {
    use super::*;
    kind!{ EndpointDiscovery ump u32 = ump_stream::EndpointDiscovery ; "EndpointDiscovery" "UmpStream" "EndpointDiscovery" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xFFFF0000,0xF0000000)] { ump_version_major set_ump_version_major Plain [(0,8,8)]; ump_version_minor set_ump_version_minor Plain [(0,0,8)]; request_endpoint_info set_request_endpoint_info Plain [(1,0,1)]; request_device_identity set_request_device_identity Plain [(1,1,1)]; request_endpoint_name set_request_endpoint_name Plain [(1,2,1)]; request_product_instance_id set_request_product_instance_id Plain [(1,3,1)]; request_stream_configuration set_request_stream_configuration Plain [(1,4,1)]; }  }
    kind!{ EndpointInfo ump u32 = ump_stream::EndpointInfo ; "EndpointInfo" "UmpStream" "EndpointInfo" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xFFFF0000,0xF0010000)] { ump_version_major set_ump_version_major Plain [(0,8,8)]; ump_version_minor set_ump_version_minor Plain [(0,0,8)]; static_function_blocks set_static_function_blocks Plain [(1,31,1)]; number_of_function_blocks set_number_of_function_blocks Plain [(1,24,7)]; supports_midi2_protocol set_supports_midi2_protocol Plain [(1,9,1)]; supports_midi1_protocol set_supports_midi1_protocol Plain [(1,8,1)]; supports_receiving_jr_timestamps set_supports_receiving_jr_timestamps Plain [(1,1,1)]; supports_sending_jr_timestamps set_supports_sending_jr_timestamps Plain [(1,0,1)]; }  }
    kind!{ DeviceIdentity ump u32 = ump_stream::DeviceIdentity ; "DeviceIdentity" "UmpStream" "DeviceIdentity" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xFFFF0000,0xF0020000)] { device_manufacturer set_device_manufacturer Plain [(1,16,7), (1,8,7), (1,0,7)]; device_family set_device_family Plain [(2,16,7), (2,24,7)]; device_family_model_number set_device_family_model_number Plain [(2,0,7), (2,8,7)]; software_version set_software_version Plain [(3,24,7), (3,16,7), (3,8,7), (3,0,7)]; }  }
    kind!{ EndpointName ump u32 = ump_stream::EndpointName ; "EndpointName" "UmpStream" "EndpointName" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF3FF0000,0xF0030000)] {  } text name name_bytes set_name try_set_name 14; }
    kind!{ ProductInstanceId ump u32 = ump_stream::ProductInstanceId ; "ProductInstanceId" "UmpStream" "ProductInstanceId" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF3FF0000,0xF0040000)] {  } text id id_bytes set_id try_set_id 14; }
    kind!{ StreamConfigurationRequest ump u32 = ump_stream::StreamConfigurationRequest ; "StreamConfigurationRequest" "UmpStream" "StreamConfigurationRequest" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xFFFF0000,0xF0050000)] { protocol set_protocol Plain [(0,8,8)]; receive_jr_timestamps set_receive_jr_timestamps Plain [(0,1,1)]; send_jr_timestamps set_send_jr_timestamps Plain [(0,0,1)]; }  }
    kind!{ StreamConfigurationNotification ump u32 = ump_stream::StreamConfigurationNotification ; "StreamConfigurationNotification" "UmpStream" "StreamConfigurationNotification" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xFFFF0000,0xF0060000)] { protocol set_protocol Plain [(0,8,8)]; receive_jr_timestamps set_receive_jr_timestamps Plain [(0,1,1)]; send_jr_timestamps set_send_jr_timestamps Plain [(0,0,1)]; }  }
    kind!{ FunctionBlockDiscovery ump u32 = ump_stream::FunctionBlockDiscovery ; "FunctionBlockDiscovery" "UmpStream" "FunctionBlockDiscovery" min 1 pkt 1 arrays [4, 5, 8]
        hdr [(0,0xFFFF0000,0xF0100000)] { function_block_number set_function_block_number Plain [(0,8,8)]; requesting_function_block_info set_requesting_function_block_info Plain [(0,1,1)]; requesting_function_block_name set_requesting_function_block_name Plain [(0,0,1)]; }  }
    kind!{ FunctionBlockInfo ump u32 = ump_stream::FunctionBlockInfo ; "FunctionBlockInfo" "UmpStream" "FunctionBlockInfo" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xFFFF0000,0xF0110000)] { active set_active Plain [(0,15,1)]; function_block_number set_function_block_number Plain [(0,8,7)]; first_group set_first_group Plain [(1,24,4)]; number_of_groups_spanned set_number_of_groups_spanned Plain [(1,16,8)]; midi_ci_version set_midi_ci_version Plain [(1,8,8)]; max_number_of_midi_ci_streams set_max_number_of_midi_ci_streams Plain [(1,0,8)]; ui_hint set_ui_hint Plain [(0,4,2)]; midi1_port set_midi1_port Midi1Port [(0,2,2)]; direction set_direction Direction [(0,0,2)]; }  }
    kind!{ FunctionBlockName ump u32 = ump_stream::FunctionBlockName ; "FunctionBlockName" "UmpStream" "FunctionBlockName" min 4 pkt 4 arrays [4, 8, 11, 12]
        hdr [(0,0xF3FF0000,0xF0120000)] { function_block set_function_block Plain [(0,8,8)]; } text name name_bytes set_name try_set_name 13; }
    kind!{ StartOfClip ump u32 = ump_stream::StartOfClip ; "StartOfClip" "UmpStream" "StartOfClip" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xFFFF0000,0xF0200000)] {  }  }
    kind!{ EndOfClip ump u32 = ump_stream::EndOfClip ; "EndOfClip" "UmpStream" "EndOfClip" min 4 pkt 4 arrays [4, 5, 8]
        hdr [(0,0xFFFF0000,0xF0210000)] {  }  }
}
pub fn ump_kinds() -> Vec<Box<dyn KindObj<u32>>> {
    #[allow(unused_mut)]
    let mut v: Vec<Box<dyn KindObj<u32>>> = vec![];
    #[cfg(feature = "utility")]
    v.extend([ko::<utility::NoOp>(), ko::<utility::Clock>(), ko::<utility::Timestamp>(), ko::<utility::DeltaClockstampTpq>(), ko::<utility::DeltaClockstamp>()]);
    #[cfg(feature = "channel-voice1")]
    v.extend([ko::<channel_voice1::NoteOff>(), ko::<channel_voice1::NoteOn>(), ko::<channel_voice1::KeyPressure>(), ko::<channel_voice1::ControlChange>(), ko::<channel_voice1::ProgramChange>(), ko::<channel_voice1::ChannelPressure>(), ko::<channel_voice1::PitchBend>()]);
    #[cfg(feature = "system-common")]
    v.extend([ko::<system_common::TimeCode>(), ko::<system_common::SongPositionPointer>(), ko::<system_common::SongSelect>(), ko::<system_common::TuneRequest>(), ko::<system_common::TimingClock>(), ko::<system_common::Start>(), ko::<system_common::Continue>(), ko::<system_common::Stop>(), ko::<system_common::ActiveSensing>(), ko::<system_common::Reset>()]);
    #[cfg(feature = "channel-voice2")]
    v.extend([ko::<channel_voice2::RegisteredPerNoteController>(), ko::<channel_voice2::AssignablePerNoteController>(), ko::<channel_voice2::RegisteredController>(), ko::<channel_voice2::AssignableController>(), ko::<channel_voice2::RelativeRegisteredController>(), ko::<channel_voice2::RelativeAssignableController>(), ko::<channel_voice2::PerNotePitchBend>(), ko::<channel_voice2::NoteOff>(), ko::<channel_voice2::NoteOn>(), ko::<channel_voice2::KeyPressure>(), ko::<channel_voice2::ControlChange>(), ko::<channel_voice2::ProgramChange>(), ko::<channel_voice2::ChannelPressure>(), ko::<channel_voice2::ChannelPitchBend>(), ko::<channel_voice2::PerNoteManagement>()]);
    #[cfg(feature = "sysex7")]
    v.extend([ko::<sysex7::Sysex7>()]);
    #[cfg(feature = "sysex8")]
    v.extend([ko::<sysex8::Sysex8>()]);
    #[cfg(feature = "flex-data")]
    v.extend([ko::<flex_data::SetTempo>(), ko::<flex_data::SetTimeSignature>(), ko::<flex_data::SetMetronome>(), ko::<flex_data::SetKeySignature>(), ko::<flex_data::SetChordName>(), ko::<flex_data::UnknownMetadataText>(), ko::<flex_data::ProjectName>(), ko::<flex_data::CompositionName>(), ko::<flex_data::MidiClipName>(), ko::<flex_data::CopyrightNotice>(), ko::<flex_data::ComposerName>(), ko::<flex_data::LyricistName>(), ko::<flex_data::ArrangerName>(), ko::<flex_data::PublisherName>(), ko::<flex_data::PrimaryPerformerName>(), ko::<flex_data::AccompanyingPerformerName>(), ko::<flex_data::RecordingDate>(), ko::<flex_data::RecordingLocation>(), ko::<flex_data::UnknownPerformanceText>(), ko::<flex_data::Lyrics>(), ko::<flex_data::LyricsLanguage>(), ko::<flex_data::Ruby>(), ko::<flex_data::RubyLanguage>()]);
    #[cfg(feature = "ump-stream")]
    v.extend([ko::<ump_stream::EndpointDiscovery>(), ko::<ump_stream::EndpointInfo>(), ko::<ump_stream::DeviceIdentity>(), ko::<ump_stream::EndpointName>(), ko::<ump_stream::ProductInstanceId>(), ko::<ump_stream::StreamConfigurationRequest>(), ko::<ump_stream::StreamConfigurationNotification>(), ko::<ump_stream::FunctionBlockDiscovery>(), ko::<ump_stream::FunctionBlockInfo>(), ko::<ump_stream::FunctionBlockName>(), ko::<ump_stream::StartOfClip>(), ko::<ump_stream::EndOfClip>()]);
    v
}
pub fn bytes_kinds() -> Vec<Box<dyn KindObj<u8>>> {
    #[allow(unused_mut)]
    let mut v: Vec<Box<dyn KindObj<u8>>> = vec![];
    #[cfg(feature = "channel-voice1")]
    v.extend([ko::<channel_voice1::NoteOffBytes>(), ko::<channel_voice1::NoteOnBytes>(), ko::<channel_voice1::KeyPressureBytes>(), ko::<channel_voice1::ControlChangeBytes>(), ko::<channel_voice1::ProgramChangeBytes>(), ko::<channel_voice1::ChannelPressureBytes>(), ko::<channel_voice1::PitchBendBytes>()]);
    #[cfg(feature = "system-common")]
    v.extend([ko::<system_common::TimeCodeBytes>(), ko::<system_common::SongPositionPointerBytes>(), ko::<system_common::SongSelectBytes>(), ko::<system_common::TuneRequestBytes>(), ko::<system_common::TimingClockBytes>(), ko::<system_common::StartBytes>(), ko::<system_common::ContinueBytes>(), ko::<system_common::StopBytes>(), ko::<system_common::ActiveSensingBytes>(), ko::<system_common::ResetBytes>()]);
    #[cfg(feature = "sysex7")]
    v.extend([ko::<sysex7::Sysex7Bytes>()]);
    v
}
