//! C12-C15: settings files, their loading from a device and the labels of their values.

use crate::engine::*;
use binrw::{BinRead, BinWrite, NullString};
use rekordcrate::device::{DeviceExportLoader, Settings};
use rekordcrate::setting::*;
use std::io::Cursor;
use std::path::{Path, PathBuf};

/// One setting, as documented: position in the data section, label in the listing, values.
struct Field {
    off: usize,
    listing: &'static str,
    vals: &'static [(u8, &'static str)],
    default: u8,
    set: fn(&mut SettingData, usize),
    get: fn(&SettingData) -> Option<usize>,
    /// None: unset; Some(k): value number (usize::MAX: a value outside of the table)
    listed: fn(&Settings) -> Option<usize>,
    show: fn(usize) -> String,
    initial: fn() -> Option<usize>,
}

struct File {
    name: &'static str,
    ty: SettingType,
    len: usize,
    brand: &'static str,
    /// The data section, settings at their defaults.
    data: &'static [u8],
    /// Positions whose value is not documented: anything is accepted and kept.
    free: &'static [std::ops::Range<usize>],
    fields: &'static [Field],
    fresh: fn() -> Setting,
}

macro_rules! fields {
    ($variant:ident; $($off:literal $listing:literal $field:ident $ty:ident $default:literal [$($byte:literal $name:ident $label:literal),* $(,)?])*) => {
        &[$(Field {
            off: $off,
            listing: $listing,
            vals: &[$(($byte, $label)),*],
            default: $default,
            set: |d, k| if let SettingData::$variant(x) = d { x.$field = [$($ty::$name),*][k] } else { panic!("wrong kind") },
            get: |d| match d { SettingData::$variant(x) => [$($ty::$name),*].iter().position(|v| *v == x.$field), _ => None },
            listed: |s| s.$field.map(|x| [$($ty::$name),*].iter().position(|v| *v == x).unwrap_or(usize::MAX)),
            show: |k| [$($ty::$name),*][k].to_string(),
            initial: || [$($ty::$name),*].iter().position(|v| *v == $ty::default()),
        }),*]
    };
}

static FILES: [File; 4] = [
    File {
        name: "DEVSETTING.DAT",
        ty: SettingType::DevSetting,
        len: 32,
        brand: "PIONEER DJ",
        data: &[
            0x78, 0x56, 0x34, 0x12, 1, 0, 0, 0, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
        ],
        free: &[],
        fresh: Setting::default_devsetting,
        fields: fields! { DevSetting;
            9 "Overview Waveform Type" overview_waveform_type OverviewWaveformType 1 [1 HalfWaveform "Half Waveform", 2 FullWaveform "Full Waveform"]
            10 "Waveform Color" waveform_color WaveformColor 1 [1 Blue "Blue", 3 Rgb "RGB", 4 TriBand "3Band"]
            12 "Key Display Format" key_display_format KeyDisplayFormat 1 [1 Classic "Classic", 2 Alphanumeric "Alphanumeric"]
            13 "Waveform Current Position" waveform_current_position WaveformCurrentPosition 1 [1 Center "Center", 2 Left "Left"]
        },
    },
    File {
        name: "DJMMYSETTING.DAT",
        ty: SettingType::DJMMySetting,
        len: 52,
        brand: "PioneerDJ",
        data: &[
            0x78, 0x56, 0x34, 0x12, 1, 0, 0, 0, 0x20, 0, 0, 0, 0x81, 0x82, 0x80, 0x80, 0x81, 0x81, 0x80, 0x81, 0x80, 0x80, 0x85, 0x82, 0x80, 0, 0,
            0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
        ],
        free: &[0..12],
        fresh: Setting::default_djmmysetting,
        fields: fields! { DJMMySetting;
            12 "Channel Fader Curve" channel_fader_curve ChannelFaderCurve 0x81 [0x80 SteepTop "Steep Top", 0x81 Linear "Linear", 0x82 SteepBottom "Steep Bottom"]
            13 "Crossfader Curve" crossfader_curve CrossfaderCurve 0x82 [0x80 ConstantPower "Constant Power", 0x81 SlowCut "Slow Cut", 0x82 FastCut "Fast Cut"]
            14 "Headphones Pre Eq" headphones_pre_eq HeadphonesPreEQ 0x80 [0x80 PostEQ "Post EQ", 0x81 PreEQ "Pre EQ"]
            15 "Headphones Mono Split" headphones_mono_split HeadphonesMonoSplit 0x80 [0x80 Stereo "Stereo", 0x81 MonoSplit "Mono Split"]
            16 "Beat FX Quantize" beat_fx_quantize BeatFXQuantize 0x81 [0x80 Off "Off", 0x81 On "On"]
            17 "Mic Low Cut" mic_low_cut MicLowCut 0x81 [0x80 Off "Off", 0x81 On "On"]
            18 "Talk Over Mode" talk_over_mode TalkOverMode 0x80 [0x80 Advanced "Advanced", 0x81 Normal "Normal"]
            19 "Talk Over Level" talk_over_level TalkOverLevel 0x81 [0x80 Minus24dB "-24dB", 0x81 Minus18dB "-18dB", 0x82 Minus12dB "-12dB", 0x83 Minus6dB "-6dB"]
            20 "MIDI Channel" midi_channel MidiChannel 0x80 [0x80 One "1", 0x81 Two "2", 0x82 Three "3", 0x83 Four "4", 0x84 Five "5", 0x85 Six "6",
                0x86 Seven "7", 0x87 Eight "8", 0x88 Nine "9", 0x89 Ten "10", 0x8a Eleven "11", 0x8b Twelve "12", 0x8c Thirteen "13",
                0x8d Fourteen "14", 0x8e Fifteen "15", 0x8f Sixteen "16"]
            21 "MIDI Button Type" midi_button_type MidiButtonType 0x80 [0x80 Toggle "Toggle", 0x81 Trigger "Trigger"]
            22 "Display Brightness" display_brightness MixerDisplayBrightness 0x85 [0x80 White "White", 0x81 One "1", 0x82 Two "2", 0x83 Three "3", 0x84 Four "4", 0x85 Five "5"]
            23 "Indicator Brightness" indicator_brightness MixerIndicatorBrightness 0x82 [0x80 One "1", 0x81 Two "2", 0x82 Three "3"]
            24 "Channel Fader Curve Long Fader" channel_fader_curve_long_fader ChannelFaderCurveLongFader 0x80 [0x80 Exponential "Exponential", 0x81 Smooth "Smooth", 0x82 Linear "Linear"]
        },
    },
    File {
        name: "MYSETTING.DAT",
        ty: SettingType::MySetting,
        len: 40,
        brand: "PIONEER",
        data: &[
            0x78, 0x56, 0x34, 0x12, 2, 0, 0, 0, 0x81, 0x83, 0x81, 0x88, 0x81, 1, 0x82, 0x81, 0x81, 1, 1, 1, 0x82, 0x80, 0x80, 0x81, 0x80, 0x81,
            0x80, 0, 0, 0x81, 0, 0, 0x81, 0x81, 0x81, 0x80, 0x81, 0x80, 0, 0,
        ],
        free: &[0..8, 13..14, 17..20],
        fresh: Setting::default_mysetting,
        fields: fields! { MySetting;
            8 "On Air Display" on_air_display OnAirDisplay 0x81 [0x80 Off "Off", 0x81 On "On"]
            9 "LCD Brightness" lcd_brightness LCDBrightness 0x83 [0x81 One "1", 0x82 Two "2", 0x83 Three "3", 0x84 Four "4", 0x85 Five "5"]
            10 "Quantize" quantize Quantize 0x81 [0x80 Off "Off", 0x81 On "On"]
            11 "Auto Cue Level" auto_cue_level AutoCueLevel 0x88 [0x80 Minus36dB "-36dB", 0x81 Minus42dB "-42dB", 0x82 Minus48dB "-48dB",
                0x83 Minus54dB "-54dB", 0x84 Minus60dB "-60dB", 0x85 Minus66dB "-66dB", 0x86 Minus72dB "-72dB", 0x87 Minus78dB "-78dB", 0x88 Memory "Memory"]
            12 "Language" language Language 0x81 [0x81 English "English", 0x82 French "Français", 0x83 German "Deutsch", 0x84 Italian "Italiano",
                0x85 Dutch "Nederlands", 0x86 Spanish "Español", 0x87 Russian "Русский", 0x88 Korean "한국어", 0x89 ChineseSimplified "简体中文",
                0x8a ChineseTraditional "繁體中文", 0x8b Japanese "日本語", 0x8c Portuguese "Português", 0x8d Swedish "Svenska", 0x8e Czech "Čeština",
                0x8f Hungarian "Magyar", 0x90 Danish "Dansk", 0x91 Greek "Ελληνικά", 0x92 Turkish "Türkçe"]
            14 "Jog Ring Brightness" jog_ring_brightness JogRingBrightness 0x82 [0x80 Off "Off", 0x81 Dark "1 (Dark)", 0x82 Bright "2 (Bright)"]
            15 "Jog Ring Indicator" jog_ring_indicator JogRingIndicator 0x81 [0x80 Off "Off", 0x81 On "On"]
            16 "Slip Flashing" slip_flashing SlipFlashing 0x81 [0x80 Off "Off", 0x81 On "On"]
            20 "Disc Slot Illumination" disc_slot_illumination DiscSlotIllumination 0x82 [0x80 Off "Off", 0x81 Dark "1 (Dark)", 0x82 Bright "2 (Bright)"]
            21 "Eject Lock" eject_lock EjectLock 0x80 [0x80 Unlock "Unlock", 0x81 Lock "Lock"]
            22 "Sync" sync Sync 0x80 [0x80 Off "Off", 0x81 On "On"]
            23 "Play Mode" play_mode PlayMode 0x81 [0x80 Continue "Continue / On", 0x81 Single "Single / Off"]
            24 "Quantize Beat Value" quantize_beat_value QuantizeBeatValue 0x80 [0x80 FullBeat "1 Beat", 0x81 HalfBeat "1/2 Beat", 0x82 QuarterBeat "1/4 Beat", 0x83 EighthBeat "1/8 Beat"]
            25 "Hotcue Autoload" hotcue_autoload HotCueAutoLoad 0x81 [0x80 Off "Off", 0x81 On "On", 0x82 RekordboxSetting "rekordbox SETTING"]
            26 "Hotcue Color" hotcue_color HotCueColor 0x80 [0x80 Off "Off", 0x81 On "On"]
            29 "Needle Lock" needle_lock NeedleLock 0x81 [0x80 Unlock "Unlock", 0x81 Lock "Lock"]
            32 "Time Mode" time_mode TimeMode 0x81 [0x80 Elapsed "Elapsed", 0x81 Remain "Remain"]
            33 "Jog Mode" jog_mode JogMode 0x81 [0x80 CDJ "CDJ", 0x81 Vinyl "Vinyl"]
            34 "Auto Cue" auto_cue AutoCue 0x81 [0x80 Off "Off", 0x81 On "On"]
            35 "Master Tempo" master_tempo MasterTempo 0x80 [0x80 Off "Off", 0x81 On "On"]
            36 "Tempo Range" tempo_range TempoRange 0x81 [0x80 SixPercent "±6%", 0x81 TenPercent "±10%", 0x82 SixteenPercent "±16%", 0x83 Wide "Wide"]
            37 "Phase Meter" phase_meter PhaseMeter 0x80 [0x80 Type1 "Type 1", 0x81 Type2 "Type 2"]
        },
    },
    File {
        name: "MYSETTING2.DAT",
        ty: SettingType::MySetting2,
        len: 40,
        brand: "PIONEER",
        data: &[
            0x81, 0x80, 0x83, 0x83, 0x81, 0, 0, 0, 0, 0, 0x80, 0x81, 0x85, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
            0, 0, 0,
        ],
        free: &[11..12],
        fresh: Setting::default_mysetting2,
        fields: fields! { MySetting2;
            0 "Vinyl Speed Adjust" vinyl_speed_adjust VinylSpeedAdjust 0x81 [0x80 TouchRelease "Touch & Release", 0x81 Touch "Touch", 0x82 Release "Release"]
            1 "Jog Display Mode" jog_display_mode JogDisplayMode 0x80 [0x80 Auto "Auto", 0x81 Info "Info", 0x82 Simple "Simple", 0x83 Artwork "Artwork"]
            2 "Pad Button Brightness" pad_button_brightness PadButtonBrightness 0x83 [0x81 One "1", 0x82 Two "2", 0x83 Three "3", 0x84 Four "4"]
            3 "Jog LCD Brightness" jog_lcd_brightness JogLCDBrightness 0x83 [0x81 One "1", 0x82 Two "2", 0x83 Three "3", 0x84 Four "4", 0x85 Five "5"]
            4 "Waveform Divisions" waveform_divisions WaveformDivisions 0x81 [0x80 TimeScale "Time Scale", 0x81 Phrase "Phrase"]
            10 "Waveform" waveform Waveform 0x80 [0x80 Waveform "Waveform", 0x81 PhaseMeter "Phase Meter"]
            12 "Beat Jump Beat Value" beat_jump_beat_value BeatJumpBeatValue 0x85 [0x80 HalfBeat "1/2 Beat", 0x81 OneBeat "1 Beat", 0x82 TwoBeat "2 Beat",
                0x83 FourBeat "4 Beat", 0x84 EightBeat "8 Beat", 0x85 SixteenBeat "16 Beat", 0x86 ThirtytwoBeat "32 Beat", 0x87 SixtyfourBeat "64 Beat"]
        },
    },
];

/// Order of the lines of the textual listing: (file, number of fields).
const LISTING: [usize; 4] = [2, 3, 1, 0];

fn crc(b: &[u8]) -> u16 {
    let mut c = 0u16;
    for x in b {
        c ^= (*x as u16) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { c << 1 ^ 0x1021 } else { c << 1 };
        }
    }
    c
}

/// The documented file image.
fn image(f: &File, strings: [&[u8]; 3], data: &[u8]) -> Vec<u8> {
    let mut b = 0x60u32.to_le_bytes().to_vec();
    for s in strings {
        b.extend_from_slice(s);
        b.resize(b.len() + 32 - s.len(), 0);
    }
    b.extend_from_slice(&(data.len() as u32).to_le_bytes());
    b.extend_from_slice(data);
    let c = crc(if f.ty == SettingType::DJMMySetting { &b } else { data });
    b.extend_from_slice(&c.to_le_bytes());
    b.extend_from_slice(&[0, 0]);
    b
}
fn std_strings(f: &File) -> [&[u8]; 3] {
    [f.brand.as_bytes(), b"rekordbox", b"6.6.1"]
}
fn default_image(f: &File) -> Vec<u8> {
    image(f, std_strings(f), f.data)
}

fn write(s: &Setting) -> std::result::Result<Vec<u8>, String> {
    let mut c = Cursor::new(vec![]);
    match guard(|| s.write(&mut c)) {
        Ok(Ok(())) => Ok(c.into_inner()),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!("PANIC {p}")),
    }
}
fn read(b: &[u8], t: SettingType) -> std::result::Result<Setting, String> {
    match guard(|| Setting::read_args(&mut Cursor::new(b), (t,))) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => {
            // the error can be shown
            let _ = e.to_string();
            Err("rejected".into())
        }
        Err(p) => Err(format!("PANIC {p}")),
    }
}
fn values(f: &File, s: &Setting) -> Vec<Option<usize>> {
    f.fields.iter().map(|x| (x.get)(&s.data)).collect()
}

/// Writes a setting, compares with the image, reads it back and writes again.
fn check_write(rec: &mut Rec, f: &File, s: &Setting, want: &[u8], what: &dyn Fn() -> String) -> bool {
    let b = match write(s) {
        Ok(b) => b,
        Err(e) => {
            rec.fail("write", format!("{}: {} does not write: {e}", f.name, what()));
            return false;
        }
    };
    if b != want {
        let i = (0..b.len().min(want.len())).find(|i| b[*i] != want[*i]);
        rec.fail("image", format!("{}: {}: {} bytes (expected {}), first difference at {i:?}: {}", f.name, what(), b.len(), want.len(), hex(&b)));
        return false;
    }
    match read(&b, f.ty) {
        Ok(r) if r == *s => match write(&r) {
            Ok(x) if x == b => true,
            x => {
                rec.fail("rewrite", format!("{}: {}: second write differs ({:?})", f.name, what(), x.err()));
                false
            }
        },
        r => {
            rec.fail("read-back", format!("{}: {}: reads back as {r:?}", f.name, what()));
            false
        }
    }
}

fn with(f: &File, picks: &[(usize, usize)]) -> (Setting, Vec<u8>) {
    let mut s = (f.fresh)();
    let mut data = f.data.to_vec();
    for (i, k) in picks {
        (f.fields[*i].set)(&mut s.data, *k);
        data[f.fields[*i].off] = f.fields[*i].vals[*k].0;
    }
    (s, data)
}

fn describe(f: &File, picks: &[(usize, usize)]) -> String {
    picks.iter().map(|(i, k)| format!("{} = {}", f.fields[*i].listing, f.fields[*i].vals[*k].1)).collect::<Vec<_>>().join(", ")
}

pub fn c12(ctx: &mut Ctx) {
    ctx.level = "exploration";
    ctx.rule = "evaluations = setting values written, compared with the documented image, read back and written again; distinct = distinct written images".into();
    ctx.assume("strings contain no NUL byte (the file format cannot hold one)");
    ctx.one("sample defaults", |rec| {
        // the defaults table against files made by rekordbox
        for f in &FILES {
            let p = format!("/repo/data/complete_export/empty/PIONEER/{}", f.name);
            if let Ok(b) = std::fs::read(&p) {
                // (the version of the writing software is not a default)
                let n = |r: std::ops::Range<usize>| b[r].iter().copied().take_while(|x| *x != 0).collect::<Vec<u8>>();
                if b.len() < 108 || b != image(f, [f.brand.as_bytes(), b"rekordbox", &n(68..100)], f.data) {
                    rec.fail("oracle", format!("{p} differs from the reference image"));
                }
            }
        }
    });
    ctx.bound("every combination of all values of all settings for DEVSETTING, MYSETTING2 and DJMMYSETTING (24, 7680 and 1990656 files)");
    for fi in [0usize, 3, 1] {
        let f = &FILES[fi];
        let total: u64 = f.fields.iter().map(|x| x.vals.len() as u64).product();
        let chunk = 4096u64;
        ctx.par(&format!("product {}", f.name), total.div_ceil(chunk), |c, rec| {
            for n in c * chunk..((c + 1) * chunk).min(total) {
                let mut x = n;
                let picks: Vec<(usize, usize)> = f
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(i, fl)| {
                        let k = (x % fl.vals.len() as u64) as usize;
                        x /= fl.vals.len() as u64;
                        (i, k)
                    })
                    .collect();
                let (s, data) = with(f, &picks);
                let want = image(f, std_strings(f), &data);
                rec.count("evaluations", 1);
                rec.count("distinct_by_construction", 1);
                if !check_write(rec, f, &s, &want, &|| describe(f, &picks)) && rec.full() {
                    return;
                }
            }
            rec.outcome(f.name);
        });
    }
    // MYSETTING: all pairs / triples / quadruples over two backgrounds
    let f = &FILES[2];
    let nf = f.fields.len();
    let depth = ctx.pick(3usize, 4);
    ctx.bound(format!("MYSETTING: every combination of values of every {depth} settings, the others at default or at their last value"));
    let mut sets: Vec<Vec<usize>> = vec![];
    fn choose(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in from..n {
            cur.push(i);
            choose(n, k, i + 1, cur, out);
            cur.pop();
        }
    }
    choose(nf, depth, 0, &mut vec![], &mut sets);
    let sr = &sets;
    ctx.par("mysetting", sets.len() as u64 * 2, |i, rec| {
        let set = &sr[(i / 2) as usize];
        let total: u64 = set.iter().map(|x| f.fields[*x].vals.len() as u64).product();
        for n in 0..total {
            let mut picks: Vec<(usize, usize)> = if i % 2 == 0 { vec![] } else { (0..nf).map(|j| (j, f.fields[j].vals.len() - 1)).collect() };
            let mut x = n;
            for j in set {
                let l = f.fields[*j].vals.len() as u64;
                picks.push((*j, (x % l) as usize));
                x /= l;
            }
            let (s, data) = with(f, &picks);
            let want = image(f, std_strings(f), &data);
            rec.count("evaluations", 1);
            rec.distinct(&want);
            if !check_write(rec, f, &s, &want, &|| describe(f, &picks)) && rec.full() {
                return;
            }
        }
        rec.outcome(f.name);
    });
    // strings
    ctx.bound("every length 0..=70 of each of the three strings, every combination of lengths 0, 1, 9, 30, 31, 32, 33, every byte 1..=255 alone, in first and in last position");
    ctx.par("strings", 4 * 3 * 71, |i, rec| {
        let f = &FILES[(i % 4) as usize];
        let which = (i / 4 % 3) as usize;
        let len = (i / 12) as usize;
        for fill in [b'A', b' ', 0x7f, 0x80, 0xff, 1] {
            let v: Vec<u8> = (0..len).map(|k| if fill == b'A' { b'A' + (k % 26) as u8 } else { fill }).collect();
            check_strings(rec, f, which, &v);
        }
        if len == 1 || len == 31 || len == 32 {
            for b in 1..=255u8 {
                for pos in [0, len - 1] {
                    let mut v = vec![b'x'; len];
                    v[pos] = b;
                    check_strings(rec, f, which, &v);
                }
            }
        }
    });
    let lens = [0usize, 1, 9, 30, 31, 32, 33];
    ctx.par("string combinations", 4 * 343, |i, rec| {
        let f = &FILES[(i % 4) as usize];
        let l = [lens[(i / 4 % 7) as usize], lens[(i / 28 % 7) as usize], lens[(i / 196 % 7) as usize]];
        let v: Vec<Vec<u8>> = l.iter().enumerate().map(|(k, n)| vec![b'p' + k as u8; *n]).collect();
        let mut s = (f.fresh)();
        s.brand = NullString(v[0].clone());
        s.software = NullString(v[1].clone());
        s.version = NullString(v[2].clone());
        rec.count("evaluations", 1);
        if l.iter().all(|n| *n <= 31) {
            let want = image(f, [&v[0], &v[1], &v[2]], f.data);
            rec.distinct(&want);
            check_write(rec, f, &s, &want, &|| format!("string lengths {l:?}"));
        } else {
            refused(rec, f, &s, &format!("string lengths {l:?}"));
        }
    });
}

fn refused(rec: &mut Rec, f: &File, s: &Setting, what: &str) {
    match write(s) {
        Ok(_) => rec.fail("string-accepted", format!("{}: {what}: written although it does not fit", f.name)),
        Err(e) if e.starts_with("PANIC") => rec.fail("string-panic", format!("{}: {what}: {e}", f.name)),
        Err(_) => rec.outcome("refused"),
    }
}

fn check_strings(rec: &mut Rec, f: &File, which: usize, v: &[u8]) {
    let mut s = (f.fresh)();
    let mut st = std_strings(f);
    match which {
        0 => s.brand = NullString(v.to_vec()),
        1 => s.software = NullString(v.to_vec()),
        _ => s.version = NullString(v.to_vec()),
    }
    rec.count("evaluations", 1);
    if v.len() <= 31 {
        st[which] = v;
        let want = image(f, st, f.data);
        rec.distinct(&want);
        check_write(rec, f, &s, &want, &|| format!("string {which} = {}", hex(v)));
        rec.outcome("string written");
    } else {
        refused(rec, f, &s, &format!("string {which} of {} bytes", v.len()));
    }
}

/// What reading a file must give: None = rejected; otherwise the values and the rewritten image.
fn expect(f: &File, b: &[u8]) -> Option<(Vec<Option<usize>>, Vec<u8>)> {
    if b.len() < 104 + f.len + 4 || b[..4] != 0x60u32.to_le_bytes() || b[100..104] != (f.len as u32).to_le_bytes() {
        return None;
    }
    let mut st: Vec<&[u8]> = vec![];
    for k in 0..3 {
        let part = &b[4 + 32 * k..36 + 32 * k];
        st.push(&part[..part.iter().position(|x| *x == 0)?]);
    }
    let data = &b[104..104 + f.len];
    if b[104 + f.len + 2..104 + f.len + 4] != [0, 0] {
        return None;
    }
    let mut vals = vec![];
    for x in f.fields {
        vals.push(Some(x.vals.iter().position(|v| v.0 == data[x.off])?));
    }
    for (i, v) in data.iter().enumerate() {
        if !f.fields.iter().any(|x| x.off == i) && !f.free.iter().any(|r| r.contains(&i)) && *v != f.data[i] {
            return None;
        }
    }
    Some((vals, image(f, [st[0], st[1], st[2]], data)))
}

fn check_read(rec: &mut Rec, f: &File, b: &[u8], what: &dyn Fn() -> String) -> bool {
    rec.count("evaluations", 1);
    match (read(b, f.ty), expect(f, b)) {
        (Err(e), _) if e.starts_with("PANIC") => {
            rec.fail("panic", format!("{}: {}: {e}", f.name, what()));
            false
        }
        (Err(_), None) => {
            rec.outcome("rejected");
            true
        }
        (Ok(s), Some((vals, img))) => {
            rec.outcome("accepted");
            let got = values(f, &s);
            if got != vals {
                rec.fail("value", format!("{}: {}: read as {got:?}, expected {vals:?}", f.name, what()));
                return false;
            }
            let st = [&s.brand.0[..], &s.software.0, &s.version.0];
            for (k, x) in st.iter().enumerate() {
                let part = &b[4 + 32 * k..36 + 32 * k];
                if *x != &part[..part.iter().position(|x| *x == 0).unwrap()] {
                    rec.fail("string", format!("{}: {}: string {k} read as {}", f.name, what(), hex(x)));
                    return false;
                }
            }
            match write(&s) {
                Ok(w) if w == img => true,
                Ok(w) => {
                    let i = (0..w.len().min(img.len())).find(|i| w[*i] != img[*i]);
                    rec.fail("rewrite", format!("{}: {}: rewritten file differs at {i:?}", f.name, what()));
                    false
                }
                Err(e) => {
                    rec.fail("rewrite", format!("{}: {}: {e}", f.name, what()));
                    false
                }
            }
        }
        (Ok(s), None) => {
            rec.fail("accepted", format!("{}: {}: accepted as {s:?}", f.name, what()));
            false
        }
        (Err(_), Some(_)) => {
            rec.fail("rejected", format!("{}: {}: rejected", f.name, what()));
            false
        }
    }
}

fn sample_files() -> Vec<(usize, PathBuf, Vec<u8>)> {
    let mut out = vec![];
    fn walk(p: &Path, out: &mut Vec<(usize, PathBuf, Vec<u8>)>) {
        let Ok(d) = std::fs::read_dir(p) else { return };
        let mut es: Vec<PathBuf> = d.filter_map(|e| e.ok().map(|e| e.path())).collect();
        es.sort();
        for e in es {
            if e.is_dir() {
                walk(&e, out);
            } else if let Some(i) = FILES.iter().position(|f| e.file_name() == Some(f.name.as_ref())) {
                if let Ok(b) = std::fs::read(&e) {
                    out.push((i, e, b));
                }
            }
        }
    }
    walk(Path::new("/repo/data"), &mut out);
    out
}

pub fn c13(ctx: &mut Ctx) {
    ctx.level = "exploration";
    ctx.rule = "evaluations = files read and compared with the documented interpretation (values, acceptance, rewritten image)".into();
    ctx.assume("the checksum and the bytes behind the NUL terminator of a string carry no value (any content is read, and rewritten canonically)");
    let samples = sample_files();
    let sr = &samples;
    ctx.bound(format!("{} sample files from rekordbox and the four default files; every single byte replaced by every value; every pair of bytes of the data section replaced by 14 values each; every truncation; every other file type", samples.len()));
    // distinct start images
    let mut starts: Vec<(usize, Vec<u8>)> = (0..4).map(|i| (i, default_image(&FILES[i]))).collect();
    // all settings away from their defaults
    for (i, f) in FILES.iter().enumerate() {
        let picks: Vec<(usize, usize)> = f.fields.iter().enumerate().map(|(j, x)| (j, if x.vals[0].0 == x.default { x.vals.len() - 1 } else { 0 })).collect();
        let (_, mut data) = with(f, &picks);
        for r in f.free {
            for k in r.clone() {
                data[k] = !data[k];
            }
        }
        starts.push((i, image(f, [b"0123456789012345678901234567890", b"", b"x"], &data)));
    }
    for (i, _, b) in sr {
        if !starts.iter().any(|x| x == &(*i, b.clone())) {
            starts.push((*i, b.clone()));
        }
    }
    ctx.par("samples", samples.len() as u64, |i, rec| {
        let (k, p, b) = &sr[i as usize];
        let f = &FILES[*k];
        if check_read(rec, f, b, &|| p.display().to_string()) {
            match read(b, f.ty).and_then(|s| write(&s)) {
                Ok(w) if w == *b => (),
                _ => rec.fail("sample", format!("{} does not round-trip", p.display())),
            }
        }
        for g in FILES.iter() {
            check_read(rec, g, b, &|| format!("{} as {}", p.display(), g.name));
        }
    });
    ctx.bound("file types: 4 names in 7 spellings below 6 directories; the contents of each type under each of the four accessors");
    ctx.one("types", |rec| {
        for (i, f) in FILES.iter().enumerate() {
            rec.count("evaluations", 1);
            let r = guard(|| {
                for d in ["", "./", "/", "x/PIONEER/", "/MYSETTING.DAT/", "DEVSETTING.DAT/../"] {
                    let name = |n: &str| SettingType::from_filename(format!("{d}{n}"));
                    if name(f.name) != Some(f.ty) {
                        return Err(format!("{d}{} implies {:?}", f.name, name(f.name)));
                    }
                    for n in [f.name.to_lowercase(), format!("{}.bak", f.name), format!("x{}", f.name), f.name.replace(".DAT", ""), f.name.replace('S', "5"), format!("{} ", f.name)] {
                        if name(&n).is_some() {
                            return Err(format!("{d}{n} implies {:?}", name(&n)));
                        }
                    }
                }
                if f.ty.expected_data_size() as usize != f.len {
                    return Err(format!("the data of {} has {} bytes", f.name, f.ty.expected_data_size()));
                }
                let s = (f.fresh)();
                let d = &s.data;
                let got = [d.as_dev_setting().is_some(), d.as_djm_my_setting().is_some(), d.as_my_setting().is_some(), d.as_my_setting2().is_some()];
                let want = [SettingType::DevSetting, SettingType::DJMMySetting, SettingType::MySetting, SettingType::MySetting2].map(|t| t == f.ty);
                if got != want {
                    return Err(format!("a {} is available as {got:?}, expected {want:?}", f.name));
                }
                Ok(())
            });
            match r {
                Ok(Ok(())) => (),
                Ok(Err(e)) => rec.fail("types", e),
                Err(p) => rec.fail("types-panic", format!("type {i}: {p}")),
            }
        }
    });
    let st = &starts;
    ctx.par("bytes", starts.len() as u64 * 160, |i, rec| {
        let (k, b) = &st[(i / 160) as usize];
        let pos = (i % 160) as usize;
        if pos >= b.len() {
            return;
        }
        let f = &FILES[*k];
        for v in 0..=255u8 {
            let mut c = b.clone();
            c[pos] = v;
            rec.distinct(&c);
            if !check_read(rec, f, &c, &|| format!("start file {}, byte {pos:#x} = {v:#04x}", i / 160)) && rec.full() {
                return;
            }
        }
        rec.sample(|| format!("{} byte {pos:#x}", f.name));
    });
    let alphabet = [0u8, 1, 2, 3, 4, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x85, 0x88, 0x92, 0xff];
    ctx.par("pairs", 8 * 52 * 52, |i, rec| {
        let (k, b) = &st[(i / 2704) as usize];
        let f = &FILES[*k];
        let (x, y) = ((i % 52) as usize, (i / 52 % 52) as usize);
        if x >= y || y >= f.len {
            return;
        }
        for v in alphabet {
            for w in alphabet {
                let mut c = b.clone();
                c[104 + x] = v;
                c[104 + y] = w;
                if !check_read(rec, f, &c, &|| format!("start file {}, data bytes {x}, {y} = {v:#04x}, {w:#04x}", i / 2704)) && rec.full() {
                    return;
                }
            }
        }
    });
    ctx.par("truncations", starts.len() as u64, |i, rec| {
        let (k, b) = &st[i as usize];
        for n in 0..b.len() {
            for g in FILES.iter() {
                check_read(rec, g, &b[..n], &|| format!("start file {i} ({}) cut to {n} bytes read as {}", FILES[*k].name, g.name));
            }
        }
    });
    ctx.bound("declared sizes of both sections: every value 0..=0x10000 and every 2^k, 2^k-1, with the file resized accordingly");
    ctx.par("sizes", 4, |i, rec| {
        let f = &FILES[i as usize];
        let b = default_image(f);
        let list = (0..=0x1_0000u32).chain((17..32).flat_map(|k| [1u32 << k, (1 << k) - 1])).chain([u32::MAX]);
        for v in list {
            for at in [0usize, 100] {
                let mut c = b.clone();
                c[at..at + 4].copy_from_slice(&v.to_le_bytes());
                check_read(rec, f, &c, &|| format!("size at {at} = {v:#x}"));
                if at == 100 && v < 0x200 {
                    // with a data section of just that size
                    let mut d = f.data.to_vec();
                    d.resize(v as usize, 0);
                    let c = image(f, std_strings(f), &d);
                    check_read(rec, f, &c, &|| format!("data section of {v} bytes"));
                }
            }
        }
    });
}

fn scratch(tag: &str) -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let base = if std::fs::create_dir(base.join(format!("rcv-probe-{}", std::process::id()))).is_ok() {
        let _ = std::fs::remove_dir(base.join(format!("rcv-probe-{}", std::process::id())));
        base
    } else {
        std::env::temp_dir()
    };
    let p = base.join(format!("rcv-{tag}-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    p
}

/// States of one file on the device.
const STATES: usize = 9;
fn place(dir: &Path, f: &File, state: usize) -> Option<Vec<usize>> {
    let p = dir.join(f.name);
    let _ = std::fs::remove_file(&p);
    let _ = std::fs::remove_dir_all(&p);
    let def: Vec<usize> = f.fields.iter().map(|x| x.vals.iter().position(|v| v.0 == x.default).unwrap()).collect();
    let other: Vec<usize> = f.fields.iter().map(|x| if x.vals[0].0 == x.default { x.vals.len() - 1 } else { 0 }).collect();
    let img = default_image(f);
    match state {
        0 => None,
        1 => {
            std::fs::write(&p, img).unwrap();
            Some(def)
        }
        2 => {
            let picks: Vec<_> = other.iter().copied().enumerate().collect();
            std::fs::write(&p, image(f, std_strings(f), &with(f, &picks).1)).unwrap();
            Some(other)
        }
        3 => {
            std::fs::write(&p, &img[..img.len() - 1]).unwrap();
            None
        }
        4 => {
            std::fs::write(&p, b"").unwrap();
            None
        }
        5 => {
            // contents of another file
            let g = FILES.iter().position(|g| g.name == f.name).unwrap();
            std::fs::write(&p, default_image(&FILES[(g + 1) % 4])).unwrap();
            None
        }
        6 => {
            std::fs::create_dir(&p).unwrap();
            None
        }
        7 => {
            // an invalid value for the first setting
            let mut b = img;
            b[104 + f.fields[0].off] = 0x7f;
            std::fs::write(&p, b).unwrap();
            None
        }
        _ => {
            std::os::unix::fs::symlink(f.name, &p).unwrap();
            None
        }
    }
}

fn listing(want: &[Option<Vec<usize>>; 4]) -> String {
    let mut lines = vec![];
    for fi in LISTING {
        for (j, x) in FILES[fi].fields.iter().enumerate() {
            let v = match &want[fi] {
                None => "<missing>",
                Some(v) => x.vals[v[j]].1,
            };
            lines.push(format!("{:<32}{v}", format!("{}:", x.listing)));
        }
    }
    lines.join("\n")
}

fn check_load(rec: &mut Rec, root: &Path, want: &[Option<Vec<usize>>; 4], what: &dyn Fn() -> String) -> bool {
    rec.count("evaluations", 1);
    let s = match guard(|| DeviceExportLoader::new(root.to_path_buf()).load_settings()) {
        Ok(s) => s,
        Err(p) => {
            rec.fail("panic", format!("{}: {p}", what()));
            return false;
        }
    };
    for (fi, f) in FILES.iter().enumerate() {
        for (j, x) in f.fields.iter().enumerate() {
            let exp = want[fi].as_ref().map(|v| v[j]);
            if (x.listed)(&s) != exp {
                rec.fail("value", format!("{}: {} is {:?}, expected {exp:?}", what(), x.listing, (x.listed)(&s)));
                return false;
            }
        }
    }
    let text = match guard(|| s.to_string()) {
        Ok(t) => t,
        Err(p) => {
            rec.fail("panic", format!("{}: {p}", what()));
            return false;
        }
    };
    let exp = listing(want);
    // label and value of every line; the amount of white space between them is not compared
    let norm = |t: &str| -> Vec<String> { t.lines().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).collect() };
    let (mut a, mut b) = (norm(&text), norm(&exp));
    a.sort();
    b.sort();
    if a != b {
        let d = b.iter().find(|l| !a.contains(l)).cloned().unwrap_or_else(|| format!("{} lines instead of {}", a.len(), b.len()));
        rec.fail("listing", format!("{}: the listing lacks the line {d:?}", what()));
        return false;
    }
    true
}

pub fn c14(ctx: &mut Ctx) {
    ctx.level = "exploration";
    ctx.rule = "evaluations = device directories loaded, all settings and the listing compared with the reference".into();
    ctx.bound(format!("every combination of {STATES} states of each of the four files (missing, default, all values different, truncated, empty, contents of another file, a directory, invalid value, unreadable link); every value of every setting; the PIONEER directory missing or a file"));
    let opts = || Opts { silence_stderr: true, ..Opts::default() };
    let n = STATES as u64;
    ctx.par_opts("combinations", n * n, opts(), |i, rec| {
        let root = scratch("c14");
        let dir = root.join("PIONEER");
        std::fs::create_dir(&dir).unwrap();
        let (a, b) = ((i % n) as usize, (i / n) as usize);
        let (wa, wb) = (place(&dir, &FILES[0], a), place(&dir, &FILES[1], b));
        for c in 0..STATES {
            let wc = place(&dir, &FILES[2], c);
            for d in 0..STATES {
                let wd = place(&dir, &FILES[3], d);
                let want = [wa.clone(), wb.clone(), wc.clone(), wd.clone()];
                rec.distinct(&[a as u8, b as u8, c as u8, d as u8]);
                check_load(rec, &root, &want, &|| format!("file states {:?}", [a, b, c, d]));
                rec.outcome(&format!("{} readable", want.iter().flatten().count()));
            }
        }
        let _ = std::fs::remove_dir_all(&root);
    });
    ctx.par_opts("values", 4, opts(), |i, rec| {
        let root = scratch("c14v");
        let dir = root.join("PIONEER");
        std::fs::create_dir(&dir).unwrap();
        let fi = i as usize;
        let f = &FILES[fi];
        for others in 0..2 {
            let mut want: [Option<Vec<usize>>; 4] = [None, None, None, None];
            for k in 0..4 {
                if k != fi {
                    want[k] = place(&dir, &FILES[k], others);
                }
            }
            let base = place(&dir, f, 1).unwrap();
            for (j, x) in f.fields.iter().enumerate() {
                for k in 0..x.vals.len() {
                    let (_, data) = with(f, &[(j, k)]);
                    std::fs::write(dir.join(f.name), image(f, std_strings(f), &data)).unwrap();
                    let mut v = base.clone();
                    v[j] = k;
                    want[fi] = Some(v);
                    rec.distinct(format!("{i} {others} {j} {k}").as_bytes());
                    check_load(rec, &root, &want, &|| format!("{} = {}", x.listing, x.vals[k].1));
                }
            }
        }
        let _ = std::fs::remove_dir_all(&root);
    });
    ctx.par_opts("no directory", 3, opts(), |i, rec| {
        let root = scratch("c14n");
        match i {
            0 => (),
            1 => std::fs::write(root.join("PIONEER"), b"x").unwrap(),
            _ => std::fs::create_dir(root.join("PIONEER")).unwrap(),
        }
        check_load(rec, &root, &[None, None, None, None], &|| format!("directory state {i}"));
        check_load(rec, &root.join("missing"), &[None, None, None, None], &|| "missing device".into());
        let _ = std::fs::remove_dir_all(&root);
    });
    ctx.par_opts("samples", 1, opts(), |_, rec| {
        // exports made by rekordbox
        for (_, p, _) in sample_files() {
            let Some(dir) = p.parent() else { continue };
            if dir.file_name() != Some("PIONEER".as_ref()) {
                continue;
            }
            let mut want: [Option<Vec<usize>>; 4] = [None, None, None, None];
            for (k, f) in FILES.iter().enumerate() {
                if let Ok(b) = std::fs::read(dir.join(f.name)) {
                    want[k] = expect(f, &b).map(|(v, _)| v.into_iter().map(|x| x.unwrap()).collect());
                }
            }
            check_load(rec, dir.parent().unwrap(), &want, &|| dir.display().to_string());
        }
    });
}

pub fn c15(ctx: &mut Ctx) {
    ctx.level = "exploration";
    ctx.rule = "evaluations = values of settings whose label, stored byte and default status are compared with the table of documented labels".into();
    ctx.bound("every value of every setting of the four settings files, complete");
    ctx.one("labels", |rec| {
        for f in &FILES {
            for x in f.fields {
                let mut seen: Vec<String> = vec![];
                for (k, (byte, label)) in x.vals.iter().enumerate() {
                    rec.count("evaluations", 1);
                    rec.distinct(format!("{} {k}", x.listing).as_bytes());
                    match guard(|| (x.show)(k)) {
                        Ok(l) => {
                            if l != *label {
                                rec.fail("label", format!("{} value {byte:#x} is shown as {l:?}, documented as {label:?}", x.listing));
                            }
                            if seen.contains(&l) {
                                rec.fail("duplicate", format!("{}: label {l:?} is used twice", x.listing));
                            }
                            seen.push(l);
                        }
                        Err(p) => rec.fail("panic", format!("{}: {p}", x.listing)),
                    }
                    // the stored byte
                    let mut b = default_image(f);
                    b[104 + x.off] = *byte;
                    match read(&b, f.ty) {
                        Ok(s) if (x.get)(&s.data) == Some(k) => (),
                        r => rec.fail("byte", format!("{} byte {byte:#x} is not read as {label:?}: {r:?}", x.listing)),
                    }
                    rec.outcome("value");
                }
                let d = x.vals.iter().position(|v| v.0 == x.default);
                if (x.initial)() != d {
                    rec.fail("default", format!("{}: the default value is number {:?}, documented {d:?}", x.listing, (x.initial)()));
                }
                let s = (f.fresh)();
                if (x.get)(&s.data) != d {
                    rec.fail("default-file", format!("{}: the default file holds value number {:?}, documented {d:?}", x.listing, (x.get)(&s.data)));
                }
            }
            let s = (f.fresh)();
            match write(&s) {
                Ok(w) if w == default_image(f) => (),
                r => rec.fail("default-image", format!("{}: default file is {:?}", f.name, r.map(|x| hex(&x)))),
            }
        }
    });
}

/// (name, kind, image) of a default file of every kind, for the other checks.
pub fn default_files() -> Vec<(&'static str, SettingType, Vec<u8>)> {
    FILES.iter().map(|f| (f.name, f.ty, default_image(f))).collect()
}
