#!/usr/bin/env python3
"""Emit harness/src/tables.rs: the wire-format tables of every message type,
written from the MIDI 2.0 UMP layout as documented by the crate."""
out=[]
w=out.append
w("// Generated by tools/mktables.py; do not edit.")
w("//! Wire-format tables of every message type.")
w("#[allow(unused_imports)]\nuse crate::kind::*;\n#[allow(unused_imports)]\nuse crate::kind;\n")
mods={}
def F(name,pieces,cls="Plain",setter=None):
    return (name,setter or "set_"+name,cls,pieces)
def O(word,octet): return (word,24-8*octet,8)
def N(word,nib): return (word,28-4*nib,4)
def kind(mod,feat,K,rep,path,name,fam,variant,mn,pkt,arrays,hdr,fields,tail=""):
    u={"ump":"u32","bytes":"u8"}[rep]
    fs=" ".join("%s %s %s [%s];"%(f[0],f[1],f[2],", ".join("(%d,%d,%d)"%p for p in f[3])) for f in fields)
    hs=", ".join("(%d,0x%X,0x%X)"%h for h in hdr)
    mods.setdefault((mod,feat),[]).append((K,rep,
      f'kind!{{ {K} {rep} {u} = {path} ; "{name}" "{fam}" "{variant}" min {mn} pkt {pkt} arrays [{", ".join(map(str,arrays))}]\n    hdr [{hs}] {{ {fs} }} {tail} }}'))
G=lambda: F("group",[(0,24,4)])
def lsb14(wd,hi,lo):  # u14 stored low 7 bits at bit `lo`, high at `hi`; most significant first
    return [(wd,hi,7),(wd,lo,7)]
# ---- utility
for n,s,w_ in [("NoOp",0,16),("Clock",1,16),("Timestamp",2,16),("DeltaClockstampTpq",3,16),("DeltaClockstamp",4,20)]:
    kind("utility","utility",n,"ump","utility::"+n,n,"Utility",n,1,1,[1,2,4],[(0,0xF0F00000,s<<20)],[F("time_data",[(0,0,w_)])])
# ---- channel voice 1 (packet and byte form)
CV1=[("NoteOff",8,3,[("note_number",1),("velocity",2)]),("NoteOn",9,3,[("note_number",1),("velocity",2)]),
 ("KeyPressure",0xA,3,[("note_number",1),("pressure",2)]),("ControlChange",0xB,3,[("control",1),("control_data",2)]),
 ("ProgramChange",0xC,2,[("program",1)]),("ChannelPressure",0xD,2,[("pressure",1)]),("PitchBend",0xE,3,None)]
for n,s,ln,fs in CV1:
    uf=[G(),F("channel",[(0,16,4)])]; bf=[F("channel",[(0,0,4)])]
    if fs is None:
        uf.append(F("bend",[(0,0,7),(0,8,7)])); bf.append(F("bend",[(2,0,7),(1,0,7)]))
    else:
        for f,i in fs:
            uf.append(F(f,[(0,16-8*i,7)])); bf.append(F(f,[(i,0,7)]))
    kind("channel_voice1","channel-voice1",n,"ump","channel_voice1::"+n,n,"ChannelVoice1",n,1,1,[1,2,4],[(0,0xF0F00000,0x20000000|s<<20)],uf)
    kind("channel_voice1","channel-voice1",n+"Bytes","bytes","channel_voice1::"+n,n,"ChannelVoice1",n,ln,ln,[3,4,7],[(0,0xF0,s<<4)],bf)
# ---- system common
SC=[("TimeCode",0xF1,2,[("time_code",1)]),("SongPositionPointer",0xF2,3,None),("SongSelect",0xF3,2,[("song",1)]),("TuneRequest",0xF6,1,[]),
 ("TimingClock",0xF8,1,[]),("Start",0xFA,1,[]),("Continue",0xFB,1,[]),("Stop",0xFC,1,[]),("ActiveSensing",0xFE,1,[]),("Reset",0xFF,1,[])]
for n,s,ln,fs in SC:
    uf=[G()]; bf=[]
    if fs is None:
        uf.append(F("position",[(0,0,7),(0,8,7)])); bf.append(F("position",[(2,0,7),(1,0,7)]))
    else:
        for f,i in fs:
            uf.append(F(f,[(0,16-8*i,7)])); bf.append(F(f,[(i,0,7)]))
    kind("system_common","system-common",n,"ump","system_common::"+n,n,"SystemCommon",n,1,1,[1,2,4],[(0,0xF0FF0000,0x10000000|s<<16)],uf)
    kind("system_common","system-common",n+"Bytes","bytes","system_common::"+n,n,"SystemCommon",n,ln,ln,[3,4,7],[(0,0xFF,s)],bf)
# ---- channel voice 2
note=F("note_number",[(0,8,7)])
d32=lambda n:F(n,[(1,0,32)])
ctl=lambda:F("controller",[(0,0,8),(1,0,32)],"Controller")
att=lambda:F("attribute",[(0,0,8),(1,0,16)],"Attr")
bi=lambda d:[F("bank",[(0,8,7)]),F("index",[(0,0,7)]),d32(d)]
CV2=[("RegisteredPerNoteController",0,[note,ctl()]),
 ("AssignablePerNoteController",1,[note,F("index",[(0,0,8)]),d32("controller_data")]),
 ("RegisteredController",2,bi("controller_data")),("AssignableController",3,bi("controller_data")),
 ("RelativeRegisteredController",4,bi("controller_data")),("RelativeAssignableController",5,bi("controller_data")),
 ("PerNotePitchBend",6,[note,d32("pitch_bend_data")]),
 ("NoteOff",8,[note,F("velocity",[(1,16,16)]),att()]),("NoteOn",9,[note,F("velocity",[(1,16,16)]),att()]),
 ("KeyPressure",0xA,[note,d32("key_pressure_data")]),
 ("ControlChange",0xB,[F("control",[(0,8,7)]),d32("control_change_data")]),
 ("ProgramChange",0xC,[F("program",[(1,24,7)]),F("bank",[(0,0,1),(1,0,7),(1,8,7)],"Bank")]),
 ("ChannelPressure",0xD,[d32("channel_pressure_data")]),("ChannelPitchBend",0xE,[d32("pitch_bend_data")]),
 ("PerNoteManagement",0xF,[note,F("detach",[(0,1,1)]),F("reset",[(0,0,1)])])]
for n,s,fs in CV2:
    kind("channel_voice2","channel-voice2",n,"ump","channel_voice2::"+n,n,"ChannelVoice2",n,2,2,[2,3,4],[(0,0xF0F00000,0x40000000|s<<20)],[G(),F("channel",[(0,16,4)])]+fs)
# ---- sysex
kind("sysex7","sysex7","Sysex7","ump","sysex7::Sysex7","Sysex7","Sysex7","Sysex7",2,2,[2,4,7,8],[(0,0xF0000000,0x30000000)],[G()],"sysex S7Ump midi2::ux::u7;")
kind("sysex7","sysex7","Sysex7Bytes","bytes","sysex7::Sysex7","Sysex7","Sysex7","Sysex7",2,2,[2,3,8,22],[(0,0xFF,0xF0)],[],"sysex S7Bytes midi2::ux::u7;")
kind("sysex8","sysex8","Sysex8","ump","sysex8::Sysex8","Sysex8","Sysex8","Sysex8",4,4,[4,8,13,16],[(0,0xF0000000,0x50000000)],[G(),F("stream_id",[(0,8,8)])],"sysex S8 u8;")
# ---- flex data
def flex(n,bank,st,fs,hdr=0xD0000000,mask=0xF0C0FFFF,tail="",mn=4,arr=[4,5,8]):
    kind("flex_data","flex-data",n,"ump","flex_data::"+n,n,"FlexData",n,mn,4,arr,[(0,mask,hdr|bank<<8|st)],[G()]+fs,tail)
oc=lambda:F("optional_channel",[(0,20,2),(0,16,4)],"OptChan")
flex("SetTempo",0,0,[F("number_of_10_nanosecond_units_per_quarter_note",[(1,0,32)])])
flex("SetTimeSignature",0,1,[F("numerator",[O(1,0)]),F("denominator",[O(1,1)]),F("number_of_32nd_notes",[O(1,2)])])
flex("SetMetronome",0,2,[F("number_of_clocks_per_primary_click",[O(1,0)]),F("bar_accent1",[O(1,1)]),F("bar_accent2",[O(1,2)]),F("bar_accent3",[O(1,3)]),
  F("number_of_subdivision_clicks1",[O(2,0)]),F("number_of_subdivision_clicks2",[O(2,1)])])
flex("SetKeySignature",0,5,[oc(),F("sharps_flats",[N(1,0)],"KeySF"),F("tonic",[N(1,1)],"Tonic")])
al=lambda n,p:F(n,[p],"Alter")
flex("SetChordName",0,6,[oc(),F("tonic_sharps_flats",[N(1,0)],"ChordSF"),F("tonic",[N(1,1)],"Tonic"),F("chord_type",[O(1,1)],"ChordType"),
  al("chord_alteration1",O(1,2)),al("chord_alteration2",O(1,3)),al("chord_alteration3",O(2,0)),al("chord_alteration4",O(2,1)),
  F("bass_sharps_flats",[N(3,0)],"ChordSF"),F("bass_note",[N(3,1)],"Tonic"),F("bass_chord_type",[O(3,1)],"ChordType"),
  al("bass_alteration1",O(3,2)),al("bass_alteration2",O(3,3))])
T1=["UnknownMetadataText","ProjectName","CompositionName","MidiClipName","CopyrightNotice","ComposerName","LyricistName","ArrangerName","PublisherName","PrimaryPerformerName","AccompanyingPerformerName","RecordingDate","RecordingLocation"]
T2=["UnknownPerformanceText","Lyrics","LyricsLanguage","Ruby","RubyLanguage"]
for b,l in ((1,T1),(2,T2)):
    for s,n in enumerate(l):
        nm="name" if n=="ComposerName" else "text"
        flex(n,b,s,[oc()],mask=0xF000FFFF,tail=f"text {nm} {nm}_bytes set_{nm} try_set_{nm} 12;",arr=[4,8,11,12])
# ---- UMP stream
def st(n,s,fs,tail="",mn=4,arr=[4,5,8],pk=4):
    kind("ump_stream","ump-stream",n,"ump","ump_stream::"+n,n,"UmpStream",n,mn,pk,arr,[(0,0xF3FF0000 if tail else 0xFFFF0000,0xF0000000|s<<16)],fs,tail)
bit=lambda n,wd,b:F(n,[(wd,b,1)])
ver=lambda:[F("ump_version_major",[O(0,2)]),F("ump_version_minor",[O(0,3)])]
st("EndpointDiscovery",0,ver()+[bit("request_endpoint_info",1,0),bit("request_device_identity",1,1),bit("request_endpoint_name",1,2),bit("request_product_instance_id",1,3),bit("request_stream_configuration",1,4)])
st("EndpointInfo",1,ver()+[bit("static_function_blocks",1,31),F("number_of_function_blocks",[(1,24,7)]),bit("supports_midi2_protocol",1,9),bit("supports_midi1_protocol",1,8),bit("supports_receiving_jr_timestamps",1,1),bit("supports_sending_jr_timestamps",1,0)])
st("DeviceIdentity",2,[F("device_manufacturer",[(1,16,7),(1,8,7),(1,0,7)]),F("device_family",[(2,16,7),(2,24,7)]),F("device_family_model_number",[(2,0,7),(2,8,7)]),F("software_version",[(3,24,7),(3,16,7),(3,8,7),(3,0,7)])])
st("EndpointName",3,[],"text name name_bytes set_name try_set_name 14;",arr=[4,8,11,12])
st("ProductInstanceId",4,[],"text id id_bytes set_id try_set_id 14;",arr=[4,8,11,12])
for n,s in (("StreamConfigurationRequest",5),("StreamConfigurationNotification",6)):
    st(n,s,[F("protocol",[O(0,2)]),bit("receive_jr_timestamps",0,1),bit("send_jr_timestamps",0,0)])
st("FunctionBlockDiscovery",0x10,[F("function_block_number",[O(0,2)]),bit("requesting_function_block_info",0,1),bit("requesting_function_block_name",0,0)],mn=1,pk=1)
st("FunctionBlockInfo",0x11,[bit("active",0,15),F("function_block_number",[(0,8,7)]),F("first_group",[(1,24,4)]),F("number_of_groups_spanned",[O(1,1)]),F("midi_ci_version",[O(1,2)]),F("max_number_of_midi_ci_streams",[O(1,3)]),
  F("ui_hint",[(0,4,2)]),F("midi1_port",[(0,2,2)],"Midi1Port"),F("direction",[(0,0,2)],"Direction")])
st("FunctionBlockName",0x12,[F("function_block",[O(0,2)])],"text name name_bytes set_name try_set_name 13;",arr=[4,8,11,12])
st("StartOfClip",0x20,[]); st("EndOfClip",0x21,[])
U=[];B=[]
for (mod,feat),ks in mods.items():
    w(f'#[cfg(feature = "{feat}")]\npub mod {mod} {{\n    use super::*;')
    for K,rep,txt in ks: w("    "+txt.replace("\n","\n    "))
    w("}")
for rep,ty in (("ump","u32"),("bytes","u8")):
    w(f"pub fn {rep}_kinds() -> Vec<Box<dyn KindObj<{ty}>>> {{\n    #[allow(unused_mut)]\n    let mut v: Vec<Box<dyn KindObj<{ty}>>> = vec![];")
    for (mod,feat),ks in mods.items():
        l=[K for K,r,_ in ks if r==rep]
        if l:
            w(f'    #[cfg(feature = "{feat}")]\n    v.extend([{", ".join(f"ko::<{mod}::{K}>()" for K in l)}]);')
    w("    v\n}")
open("/verif/harness/src/tables.rs","w").write("\n".join(out)+"\n")
