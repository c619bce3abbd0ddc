//! Replays behaviours of the builder specification on the real builders, for several families of extensions.

use crate::j::{text, tool_error, J};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use time::{format_description::well_known::Rfc3339, OffsetDateTime};
use wot_td::{
    builder::{affordance::*, data_schema::*, *},
    extend::{Extend, ExtendableThing},
    hlist::{Cons, Nil},
    protocol::{coap, http, mqtt},
    thing::{
        Form, FormOperation, QualityOfProtection, SecurityAuthenticationLocation, VersionInfo,
    },
    Thing,
};

/// A builder call, with the calls made inside the closure given to it.
#[derive(Debug, Clone)]
pub struct Call {
    pub m: String,
    pub key: String,
    pub v: J,
    pub body: Vec<Call>,
}

#[derive(Clone)]
pub struct Prog {
    pub title: String,
    pub calls: Vec<Call>,
}

/// Rebuilds the tree of calls from the sequence of events.
pub fn program(events: &Value) -> Prog {
    let mut stack: Vec<Call> = vec![];
    for e in events.as_array().unwrap_or_else(|| tool_error("no program")) {
        let form = e[0].as_str().unwrap_or_else(|| tool_error("no event"));
        let call = || Call {
            m: e[1].as_str().unwrap().into(),
            key: text(e[2].as_str().unwrap()),
            v: J::tagged(&e[3]),
            body: vec![],
        };
        match form {
            "(" => stack.push(call()),
            "." => stack.last_mut().unwrap().body.push(call()),
            ")" => {
                let c = stack.pop().unwrap();
                stack.last_mut().unwrap_or_else(|| tool_error("unbalanced program")).body.push(c);
            }
            _ => tool_error("unknown event"),
        }
    }
    if stack.len() != 1 {
        tool_error("unbalanced program");
    }
    let t = stack.pop().unwrap();
    Prog { title: t.v.str(), calls: t.body }
}

/// The same program with the extensions of every element given first.
pub fn extensions_first(calls: &[Call]) -> Vec<Call> {
    let calls = calls.iter().map(|c| Call { body: extensions_first(&c.body), ..c.clone() });
    let (mut first, rest): (Vec<_>, Vec<_>) = calls.partition(|c| c.m.starts_with("ext") && c.m != "extend");
    first.extend(rest);
    first
}

pub enum Outcome {
    Built(Built),
    Failed(Failure),
    Panic(String),
}

#[derive(Debug)]
pub struct Failure {
    pub code: String,
    pub a: String,
    pub b: String,
    pub message: String,
}

pub struct Built {
    /// the text, or why it cannot be written
    pub text: Result<String, String>,
    /// violations of what must hold of any description
    pub issues: Vec<(Vec<&'static str>, String)>,
    /// the security definitions of an unknown kind, with their schemes
    pub unknown: Vec<(String, String)>,
}

pub struct Group {
    pub outcomes: Vec<Outcome>,
    /// whether each description equals the first one
    pub equal: Vec<Option<bool>>,
}

/// The outcome of reading one text.
pub enum ReadOut {
    Refused(String),
    Read(Built),
    Panic(String),
}

pub struct ReadGroup {
    pub outs: Vec<ReadOut>,
    pub equal: Vec<Option<bool>>,
}

fn unknown(c: &Call) -> ! {
    tool_error(&format!("unknown call {} here", c.m))
}

fn no_stage() -> ! {
    tool_error("extension stage out of order")
}

pub fn op(v: &J) -> FormOperation {
    let s = v.str();
    OPS.iter().find(|x| x.0 == s).unwrap_or_else(|| tool_error(&format!("operation {s}"))).1
}

use FormOperation::*;
pub const OPS: &[(&str, FormOperation)] = &[
    ("readproperty", ReadProperty),
    ("writeproperty", WriteProperty),
    ("observeproperty", ObserveProperty),
    ("unobserveproperty", UnobserveProperty),
    ("invokeaction", InvokeAction),
    ("queryaction", QueryAction),
    ("cancelaction", CancelAction),
    ("subscribeevent", SubscribeEvent),
    ("unsubscribeevent", UnsubscribeEvent),
    ("readallproperties", ReadAllProperties),
    ("writeallproperties", WriteAllProperties),
    ("readmultipleproperties", ReadMultipleProperties),
    ("writemultipleproperties", WriteMultipleProperties),
    ("observeallproperties", ObserveAllProperties),
    ("unobserveallproperties", UnobserveAllProperties),
    ("subscribeallevents", SubscribeAllEvents),
    ("unsubscribeallevents", UnsubscribeAllEvents),
    ("queryallactions", QueryAllActions),
];

fn location(v: &J) -> SecurityAuthenticationLocation {
    use SecurityAuthenticationLocation::*;
    match v.str().as_str() {
        "header" => Header,
        "query" => Query,
        "body" => Body,
        "cookie" => Cookie,
        "uri" => Uri,
        x => tool_error(&format!("location {x}")),
    }
}

fn qop(v: &J) -> QualityOfProtection {
    match v.str().as_str() {
        "auth" => QualityOfProtection::Auth,
        "auth-int" => QualityOfProtection::AuthInt,
        x => tool_error(&format!("quality {x}")),
    }
}

fn time_of(v: &J) -> OffsetDateTime {
    OffsetDateTime::parse(&v.str(), &Rfc3339).unwrap_or_else(|_| tool_error("time"))
}

fn version(v: &J) -> VersionInfo {
    match v {
        J::S(s) => s.clone().into(),
        v => VersionInfo {
            instance: v.get("instance").unwrap_or_else(|| tool_error("no instance")).str(),
            model: v.get("model").map(J::str),
        },
    }
}

fn ml(c: &Call) -> impl FnOnce(&mut MultiLanguageBuilder<String>) -> &mut MultiLanguageBuilder<String> + '_ {
    move |mut b| {
        for x in &c.body {
            b = b.add(x.key.clone(), x.v.str());
        }
        b
    }
}

fn context_map(c: &Call) -> impl FnOnce(&mut ContextMapBuilder) -> &mut ContextMapBuilder + '_ {
    move |mut b| {
        for x in &c.body {
            b = b.context(x.key.clone(), x.v.str());
        }
        b
    }
}

fn additional_response(
    c: &Call,
) -> impl FnOnce(&mut AdditionalExpectedResponseBuilder) -> &mut AdditionalExpectedResponseBuilder + '_ {
    move |mut b| {
        for x in &c.body {
            b = match x.m.as_str() {
                "success" => b.success(),
                "content_type" => b.content_type(x.v.str()),
                "schema" => b.schema(x.v.str()),
                _ => unknown(x),
            };
        }
        b
    }
}

fn link_any<H>(b: LinkBuilder<H>, c: &Call) -> LinkBuilder<H> {
    match c.m.as_str() {
        "ty" => b.ty(c.v.str()),
        "rel" => b.rel(c.v.str()),
        "anchor" => b.anchor(c.v.str()),
        "sizes" => b.sizes(c.v.str()),
        "hreflang" => b.hreflang(c.v.str()),
        _ => unknown(c),
    }
}

fn link(mut b: LinkBuilder<()>, calls: &[Call]) -> LinkBuilder<String> {
    for (i, c) in calls.iter().enumerate() {
        if c.m == "href" {
            let mut b = b.href(c.v.str());
            for c in &calls[i + 1..] {
                b = link_any(b, c);
            }
            return b;
        }
        b = link_any(b, c);
    }
    tool_error("link without target")
}

fn sec_any<T>(b: SecuritySchemeBuilder<T>, c: &Call) -> SecuritySchemeBuilder<T> {
    match c.m.as_str() {
        "attype" => b.attype(c.v.str()),
        "description" => b.description(c.v.str()),
        "descriptions" => b.descriptions(ml(c)),
        "proxy" => b.proxy(c.v.str()),
        "with_key" => b.with_key(c.v.str()),
        "required" => b.required(),
        _ => unknown(c),
    }
}

fn strs(v: &J) -> Vec<String> {
    v.list().iter().map(J::str).collect()
}

fn security<O: ExtendableThing, St>(t: ThingBuilder<O, St>, body: &[Call]) -> ThingBuilder<O, St> {
    const SELECTORS: &[&str] =
        &["no_sec", "auto", "combo", "basic", "digest", "bearer", "psk", "oauth2", "apikey", "custom"];
    let k = body
        .iter()
        .position(|c| SELECTORS.contains(&c.m.as_str()))
        .unwrap_or_else(|| tool_error("security scheme without kind"));
    let sel = &body[k];
    macro_rules! scheme {
        ($s:ident => $select:expr, $c:ident, { $($pat:literal => $e:expr),* $(,)? }) => {
            t.security(|$s| {
                let mut $s = $s;
                for c in &body[..k] {
                    $s = sec_any($s, c);
                }
                #[allow(unused_mut)]
                let mut $s = $select;
                for $c in &body[k + 1..] {
                    $s = match $c.m.as_str() {
                        $($pat => $e,)*
                        _ => sec_any($s, $c),
                    };
                }
                $s
            })
        };
    }
    match sel.m.as_str() {
        "no_sec" => scheme!(s => s.no_sec(), c, {}),
        "auto" => scheme!(s => s.auto(), c, {}),
        "basic" => scheme!(s => s.basic(), c, { "name" => s.name(c.v.str()), "location" => s.location(location(&c.v)) }),
        "digest" => scheme!(s => s.digest(), c, {
            "name" => s.name(c.v.str()), "location" => s.location(location(&c.v)), "qop" => s.qop(qop(&c.v)),
        }),
        "apikey" => scheme!(s => s.apikey(), c, { "name" => s.name(c.v.str()), "location" => s.location(location(&c.v)) }),
        "bearer" => scheme!(s => s.bearer(), c, {
            "name" => s.name(c.v.str()), "location" => s.location(location(&c.v)),
            "authorization" => s.authorization(c.v.str()), "alg" => s.alg(c.v.str()), "format" => s.format(c.v.str()),
        }),
        "psk" => scheme!(s => s.psk(), c, {}),
        "oauth2" => scheme!(s => s.oauth2(sel.v.str()), c, {
            "authorization" => s.authorization(c.v.str()), "token" => s.token(c.v.str()),
            "refresh" => s.refresh(c.v.str()), "scope" => s.scope(c.v.str()),
        }),
        "custom" => scheme!(s => s.custom(sel.v.str()), c, { "data" => s.data(c.v.value()) }),
        "combo" => {
            let n = body[k + 1..]
                .iter()
                .position(|c| c.m == "all_of" || c.m == "one_of")
                .unwrap_or_else(|| tool_error("combo without kind"))
                + k
                + 1;
            macro_rules! combo {
                ($kind:ident) => {
                    t.security(|s| {
                        let mut s = s;
                        for c in &body[..k] {
                            s = sec_any(s, c);
                        }
                        let mut s = s.combo();
                        for c in &body[k + 1..n] {
                            s = match c.m.as_str() {
                                "name" => s.name(c.v.str()),
                                _ => sec_any(s, c),
                            };
                        }
                        let mut s = s.$kind(strs(&body[n].v));
                        for c in &body[n + 1..] {
                            s = match c.m.as_str() {
                                "name" => s.name(c.v.str()),
                                "extend" => s.extend(strs(&c.v)),
                                "push" => s.push(c.v.str()),
                                _ => sec_any(s, c),
                            };
                        }
                        s
                    })
                };
            }
            if body[n].m == "all_of" {
                combo!(all_of)
            } else {
                combo!(one_of)
            }
        }
        _ => unreachable!(),
    }
}

fn thing_any<O: ExtendableThing, St>(b: ThingBuilder<O, St>, c: &Call) -> ThingBuilder<O, St> {
    match c.m.as_str() {
        "id" => b.id(c.v.str()),
        "description" => b.description(c.v.str()),
        "version" => b.version(version(&c.v)),
        "created" => b.created(time_of(&c.v)),
        "modified" => b.modified(time_of(&c.v)),
        "support" => b.support(c.v.str()),
        "base" => b.base(c.v.str()),
        "context" => b.context(c.v.str()),
        "context_map" => b.context_map(context_map(c)),
        "attype" => b.attype(c.v.str()),
        "profile" => b.profile(c.v.str()),
        "titles" => b.titles(ml(c)),
        "descriptions" => b.descriptions(ml(c)),
        "link" => b.link(c.v.str()),
        "link_with" => b.link_with(|l| link(l, &c.body)),
        "security" => security(b, &c.body),
        _ => unknown(c),
    }
}

fn failure(e: Error) -> Failure {
    let message = e.to_string();
    let (code, a, b) = match e {
        Error::DuplicatedSecurityDefinition(n) => ("DuplicatedSecurityDefinition", n, String::new()),
        Error::MissingOpInForm => ("MissingOpInForm", String::new(), String::new()),
        Error::InvalidOpInForm { context, operation } => (
            "InvalidOpInForm",
            match context {
                FormContext::Thing => "Thing",
                FormContext::Property => "Property",
                FormContext::Action => "Action",
                FormContext::Event => "Event",
            }
            .into(),
            OPS.iter().find(|x| x.1 == operation).map_or("?", |x| x.0).into(),
        ),
        Error::UndefinedSecurity(n) => ("UndefinedSecurity", n, String::new()),
        Error::InvalidMinMax => ("InvalidMinMax", String::new(), String::new()),
        Error::NanMinMax => ("NanMinMax", String::new(), String::new()),
        Error::DuplicatedAffordance { ty, name } => (
            "DuplicatedAffordance",
            match ty {
                AffordanceType::Property => "property",
                AffordanceType::Action => "action",
                AffordanceType::Event => "event",
            }
            .into(),
            name,
        ),
        Error::InvalidMultipleOf => ("InvalidMultipleOf", String::new(), String::new()),
        Error::MissingSchemaDefinition(n) => ("MissingSchemaDefinition", n, String::new()),
        Error::InvalidUriVariables => ("InvalidUriVariables", String::new(), String::new()),
        Error::InvalidLanguageTag(t) => ("InvalidLanguageTag", t, String::new()),
        Error::SizesWithRelNotIcon => ("SizesWithRelNotIcon", String::new(), String::new()),
        #[allow(unreachable_patterns)]
        _ => ("?", String::new(), String::new()),
    };
    Failure { code: code.into(), a, b, message }
}

/// An extension piece made from a value of the specification.
pub trait Piece: Sized {
    fn of(v: &J) -> Self;
}

impl Piece for () {
    fn of(_: &J) {}
}

trait ListOf {
    fn of(values: &[J]) -> Self;
}

impl ListOf for Nil {
    fn of(values: &[J]) -> Self {
        if !values.is_empty() {
            no_stage()
        }
        Nil
    }
}

impl<T: Piece, U: ListOf + Extend<T, Target = Cons<T, U>>> ListOf for Cons<T, U> {
    fn of(values: &[J]) -> Self {
        let (last, rest) = values.split_last().unwrap_or_else(|| no_stage());
        U::of(rest).ext(T::of(last))
    }
}

macro_rules! pieces {
    ($ext:ident: $($name:ident $assoc:ident $m1:literal $m2:literal),* $(,)?) => {
        $(
            #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
            pub struct $name {
                #[serde(rename = $m1, skip_serializing_if = "Option::is_none")]
                one: Option<Value>,
                #[serde(rename = $m2, skip_serializing_if = "Option::is_none")]
                two: Option<Value>,
            }
            impl Piece for $name {
                fn of(v: &J) -> Self {
                    for k in v.map().keys() {
                        if k != $m1 && k != $m2 {
                            tool_error(&format!("extension member {k} here"));
                        }
                    }
                    Self { one: v.get($m1).map(J::value), two: v.get($m2).map(J::value) }
                }
            }
        )*
        impl ExtendableThing for $ext {
            $(type $assoc = $name;)*
        }
    };
}

macro_rules! thing_piece {
    ($ext:ident $m1:literal $m2:literal) => {
        #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
        pub struct $ext {
            #[serde(rename = $m1, skip_serializing_if = "Option::is_none")]
            one: Option<Value>,
            #[serde(rename = $m2, skip_serializing_if = "Option::is_none")]
            two: Option<Value>,
        }
        impl Piece for $ext {
            fn of(v: &J) -> Self {
                Self { one: v.get($m1).map(J::value), two: v.get($m2).map(J::value) }
            }
        }
    };
}

thing_piece!(ExtA "a:thing" "a:thing2");
pieces!(ExtA:
    AInt InteractionAffordance "a:int" "a:int2",
    AProp PropertyAffordance "a:prop" "a:prop2",
    AAct ActionAffordance "a:act" "a:act2",
    AEv EventAffordance "a:ev" "a:ev2",
    AForm Form "a:form" "a:form2",
    AResp ExpectedResponse "a:resp" "a:resp2",
    ADs DataSchema "a:ds" "a:ds2",
    AObj ObjectSchema "a:obj" "a:obj2",
    AArr ArraySchema "a:arr" "a:arr2",
);
thing_piece!(ExtB "b:thing" "b:thing2");
pieces!(ExtB:
    BInt InteractionAffordance "b:int" "b:int2",
    BProp PropertyAffordance "b:prop" "b:prop2",
    BAct ActionAffordance "b:act" "b:act2",
    BEv EventAffordance "b:ev" "b:ev2",
    BForm Form "b:form" "b:form2",
    BResp ExpectedResponse "b:resp" "b:resp2",
    BDs DataSchema "b:ds" "b:ds2",
    BObj ObjectSchema "b:obj" "b:obj2",
    BArr ArraySchema "b:arr" "b:arr2",
);

impl Piece for http::HttpProtocol {
    fn of(_: &J) -> Self {
        Self {}
    }
}
impl Piece for coap::CoapProtocol {
    fn of(_: &J) -> Self {
        Self {}
    }
}
impl Piece for mqtt::MqttProtocol {
    fn of(_: &J) -> Self {
        Self {}
    }
}

impl Piece for http::Form {
    fn of(v: &J) -> Self {
        use http::Method::*;
        Self {
            method_name: v.get("htv:methodName").map(|m| match m.str().as_str() {
                "GET" => Get,
                "PUT" => Put,
                "POST" => Post,
                "DELETE" => Delete,
                "PATCH" => Patch,
                x => tool_error(x),
            }),
        }
    }
}

impl Piece for http::Response {
    fn of(v: &J) -> Self {
        Self {
            headers: v.get("htv:headers").map_or(vec![], |h| {
                h.list()
                    .iter()
                    .map(|h| http::MessageHeader {
                        field_name: h.get("htv:fieldName").map(J::str),
                        field_value: h.get("htv:fieldValue").map(J::str),
                    })
                    .collect()
            }),
            status_code_value: v.get("htv:statusCodeValue").map(J::num),
        }
    }
}

fn block(v: &J) -> coap::BlockWiseTransferParameters {
    fn size(v: &J) -> coap::BlockSize {
        use coap::BlockSize::*;
        match v.num::<u32>() {
            16 => Size16,
            32 => Size32,
            64 => Size64,
            128 => Size128,
            256 => Size256,
            512 => Size512,
            1024 => Size1024,
            _ => tool_error("block size"),
        }
    }
    coap::BlockWiseTransferParameters {
        block2_size: v.get("cov:block2Size").map(size),
        block1_size: v.get("cov:block1Size").map(size),
    }
}

impl Piece for coap::Form {
    fn of(v: &J) -> Self {
        use coap::Method::*;
        Self {
            method: v.get("cov:method").map(|m| match m.str().as_str() {
                "GET" => Get,
                "PUT" => Put,
                "POST" => Post,
                "DELETE" => Delete,
                "PATCH" => Patch,
                "FETCH" => Fetch,
                "iPATCH" => Ipatch,
                x => tool_error(x),
            }),
            blockwise: v.get("cov:blockwise").map(block),
            qblockwise: v.get("cov:qblockwise").map(block),
            hop_limit: v.get("cov:hopLimit").map(J::num),
            accept: v.get("cov:accept").map(J::num),
            content_format: v.get("cov:contentFormat").map(J::num),
        }
    }
}

impl Piece for coap::ExpectedResponse {
    fn of(v: &J) -> Self {
        Self { content_format: v.get("cov:contentFormat").map(J::num) }
    }
}

impl Piece for mqtt::Form {
    fn of(v: &J) -> Self {
        Self {
            retain: v.get("mqv:retain").map_or(false, J::bool),
            control_packet: v.get("mqv:controlPacket").map(|p| match p.str().as_str() {
                "mqv:publish" => mqtt::ControlPacket::Publish,
                "mqv:subscribe" => mqtt::ControlPacket::Subscribe,
                "mqv:unsubscribe" => mqtt::ControlPacket::Unsubscribe,
                x => tool_error(x),
            }),
            qos: v.get("mqv:qos").map(|q| match q.str().as_str() {
                "quality:0" => mqtt::QoS::AtMostOnce,
                "quality:1" => mqtt::QoS::AtLeastOnce,
                "quality:2" => mqtt::QoS::ExactlyOnce,
                x => tool_error(x),
            }),
            topic: v.get("mqv:topic").map(J::str),
            filter: match v.get("mqv:filter") {
                None => vec![],
                Some(J::S(s)) => vec![s.clone()],
                Some(l) => strs(l),
            },
        }
    }
}

// The stages of adding extensions: what has been added so far is a type.
trait ThingStage<O: ExtendableThing>: ExtendableThing + Sized {
    type Next: ThingStage<O>;
    fn ext(b: ThingBuilder<Self, ToExtend>, c: &Call) -> ThingBuilder<Self::Next, ToExtend>;
    fn fin(b: ThingBuilder<Self, ToExtend>) -> ThingBuilder<O, ToExtend>;
}

trait FormStage<O: ExtendableThing>: Sized {
    type Next: FormStage<O>;
    fn ext<H>(b: FormBuilder<O, H, Self>, c: &Call) -> FormBuilder<O, H, Self::Next>;
    fn fin<H>(b: FormBuilder<O, H, Self>) -> FormBuilder<O, H, O::Form>;
}

trait IStage<O: ExtendableThing>: Sized {
    type Next: IStage<O>;
    fn ext_a<T>(b: ActionAffordanceBuilder<O, Self, T>, c: &Call) -> ActionAffordanceBuilder<O, Self::Next, T>;
    fn ext_e<T>(b: EventAffordanceBuilder<O, Self, T>, c: &Call) -> EventAffordanceBuilder<O, Self::Next, T>;
    fn ext_p<D, T>(b: PropertyAffordanceBuilder<O, D, Self, T>, c: &Call) -> PropertyAffordanceBuilder<O, D, Self::Next, T>;
    fn fin_a<T>(b: ActionAffordanceBuilder<O, Self, T>) -> ActionAffordanceBuilder<O, O::InteractionAffordance, T>;
    fn fin_e<T>(b: EventAffordanceBuilder<O, Self, T>) -> EventAffordanceBuilder<O, O::InteractionAffordance, T>;
    fn fin_p<D, T>(b: PropertyAffordanceBuilder<O, D, Self, T>) -> PropertyAffordanceBuilder<O, D, O::InteractionAffordance, T>;
}

trait AStage<O: ExtendableThing>: Sized {
    type Next: AStage<O>;
    fn ext<T>(b: ActionAffordanceBuilder<O, T, Self>, c: &Call) -> ActionAffordanceBuilder<O, T, Self::Next>;
    fn fin<T>(b: ActionAffordanceBuilder<O, T, Self>) -> ActionAffordanceBuilder<O, T, O::ActionAffordance>;
}

trait EStage<O: ExtendableThing>: Sized {
    type Next: EStage<O>;
    fn ext<T>(b: EventAffordanceBuilder<O, T, Self>, c: &Call) -> EventAffordanceBuilder<O, T, Self::Next>;
    fn fin<T>(b: EventAffordanceBuilder<O, T, Self>) -> EventAffordanceBuilder<O, T, O::EventAffordance>;
}

trait PStage<O: ExtendableThing>: Sized {
    type Next: PStage<O>;
    fn ext<D, T>(b: PropertyAffordanceBuilder<O, D, T, Self>, c: &Call) -> PropertyAffordanceBuilder<O, D, T, Self::Next>;
    fn fin<D, T>(b: PropertyAffordanceBuilder<O, D, T, Self>) -> PropertyAffordanceBuilder<O, D, T, O::PropertyAffordance>;
}

type Schema<O, D, St> =
    DataSchemaBuilder<D, <O as ExtendableThing>::ArraySchema, <O as ExtendableThing>::ObjectSchema, St>;
type Partial<O, D, St> =
    PartialDataSchemaBuilder<D, <O as ExtendableThing>::ArraySchema, <O as ExtendableThing>::ObjectSchema, St>;
type Unchecked<O> = UncheckedDataSchema<
    <O as ExtendableThing>::DataSchema,
    <O as ExtendableThing>::ArraySchema,
    <O as ExtendableThing>::ObjectSchema,
>;

trait DStage<O: ExtendableThing>: Sized {
    type Next: DStage<O>;
    fn ext(b: Schema<O, Self, ToExtend>, c: &Call) -> Schema<O, Self::Next, ToExtend>;
    fn fin(b: Schema<O, Self, ToExtend>) -> Schema<O, O::DataSchema, ToExtend>;
    fn ext_p<I, P>(
        b: PropertyAffordanceBuilder<O, Partial<O, Self, ToExtend>, I, P>,
        c: &Call,
    ) -> PropertyAffordanceBuilder<O, Partial<O, Self::Next, ToExtend>, I, P>;
    fn fin_p<I, P>(
        b: PropertyAffordanceBuilder<O, Partial<O, Self, ToExtend>, I, P>,
    ) -> PropertyAffordanceBuilder<O, Partial<O, O::DataSchema, ToExtend>, I, P>;
    /// members of the schema, which can be set when all its extensions are there
    fn data_p<I, P>(
        b: PropertyAffordanceBuilder<O, Partial<O, Self, ToExtend>, I, P>,
        c: &Call,
    ) -> PropertyAffordanceBuilder<O, Partial<O, Self, ToExtend>, I, P>;
}

macro_rules! add {
    ($b:ident . $ext:ident / $with:ident, $c:ident, $p:ty) => {
        if $c.m.ends_with("_with") {
            $b.$with(|| <$p as Piece>::of(&$c.v))
        } else {
            $b.$ext(<$p as Piece>::of(&$c.v))
        }
    };
}

macro_rules! last_stage {
    ($tr:ident $o:ty; $t:ty) => {
        last_stage!(@ $tr, $o, $t);
    };
    (@ ThingStage, $o:ty, $t:ty) => {
        impl ThingStage<$o> for $t {
            type Next = Self;
            fn ext(_: ThingBuilder<Self, ToExtend>, _: &Call) -> ThingBuilder<Self, ToExtend> { no_stage() }
            fn fin(b: ThingBuilder<Self, ToExtend>) -> ThingBuilder<$o, ToExtend> { b }
        }
    };
    (@ FormStage, $o:ty, $t:ty) => {
        impl FormStage<$o> for $t {
            type Next = Self;
            fn ext<H>(_: FormBuilder<$o, H, Self>, _: &Call) -> FormBuilder<$o, H, Self> { no_stage() }
            fn fin<H>(b: FormBuilder<$o, H, Self>) -> FormBuilder<$o, H, <$o as ExtendableThing>::Form> { b }
        }
    };
    (@ IStage, $o:ty, $t:ty) => {
        impl IStage<$o> for $t {
            type Next = Self;
            fn ext_a<T>(_: ActionAffordanceBuilder<$o, Self, T>, _: &Call) -> ActionAffordanceBuilder<$o, Self, T> { no_stage() }
            fn ext_e<T>(_: EventAffordanceBuilder<$o, Self, T>, _: &Call) -> EventAffordanceBuilder<$o, Self, T> { no_stage() }
            fn ext_p<D, T>(_: PropertyAffordanceBuilder<$o, D, Self, T>, _: &Call) -> PropertyAffordanceBuilder<$o, D, Self, T> { no_stage() }
            fn fin_a<T>(b: ActionAffordanceBuilder<$o, Self, T>) -> ActionAffordanceBuilder<$o, Self, T> { b }
            fn fin_e<T>(b: EventAffordanceBuilder<$o, Self, T>) -> EventAffordanceBuilder<$o, Self, T> { b }
            fn fin_p<D, T>(b: PropertyAffordanceBuilder<$o, D, Self, T>) -> PropertyAffordanceBuilder<$o, D, Self, T> { b }
        }
    };
    (@ AStage, $o:ty, $t:ty) => {
        impl AStage<$o> for $t {
            type Next = Self;
            fn ext<T>(_: ActionAffordanceBuilder<$o, T, Self>, _: &Call) -> ActionAffordanceBuilder<$o, T, Self> { no_stage() }
            fn fin<T>(b: ActionAffordanceBuilder<$o, T, Self>) -> ActionAffordanceBuilder<$o, T, Self> { b }
        }
    };
    (@ EStage, $o:ty, $t:ty) => {
        impl EStage<$o> for $t {
            type Next = Self;
            fn ext<T>(_: EventAffordanceBuilder<$o, T, Self>, _: &Call) -> EventAffordanceBuilder<$o, T, Self> { no_stage() }
            fn fin<T>(b: EventAffordanceBuilder<$o, T, Self>) -> EventAffordanceBuilder<$o, T, Self> { b }
        }
    };
    (@ PStage, $o:ty, $t:ty) => {
        impl PStage<$o> for $t {
            type Next = Self;
            fn ext<D, T>(_: PropertyAffordanceBuilder<$o, D, T, Self>, _: &Call) -> PropertyAffordanceBuilder<$o, D, T, Self> { no_stage() }
            fn fin<D, T>(b: PropertyAffordanceBuilder<$o, D, T, Self>) -> PropertyAffordanceBuilder<$o, D, T, Self> { b }
        }
    };
    (@ DStage, $o:ty, $t:ty) => {
        impl DStage<$o> for $t {
            type Next = Self;
            fn ext(_: Schema<$o, Self, ToExtend>, _: &Call) -> Schema<$o, Self, ToExtend> { no_stage() }
            fn fin(b: Schema<$o, Self, ToExtend>) -> Schema<$o, Self, ToExtend> { b }
            fn ext_p<I, P>(_: PropertyAffordanceBuilder<$o, Partial<$o, Self, ToExtend>, I, P>, _: &Call)
                -> PropertyAffordanceBuilder<$o, Partial<$o, Self, ToExtend>, I, P> { no_stage() }
            fn fin_p<I, P>(b: PropertyAffordanceBuilder<$o, Partial<$o, Self, ToExtend>, I, P>)
                -> PropertyAffordanceBuilder<$o, Partial<$o, Self, ToExtend>, I, P> { b }
            fn data_p<I, P>(b: PropertyAffordanceBuilder<$o, Partial<$o, Self, ToExtend>, I, P>, c: &Call)
                -> PropertyAffordanceBuilder<$o, Partial<$o, Self, ToExtend>, I, P> {
                match c.m.as_str() {
                    "unit" => b.unit(c.v.str()),
                    "format" => b.format(c.v.str()),
                    _ => b.default_value(c.v.value()),
                }
            }
        }
    };
}

macro_rules! next_stage {
    ($tr:ident $o:ty; $t:ty, $p:ty => $n:ty) => {
        next_stage!(@ $tr, $o, $t, $p, $n);
    };
    (@ ThingStage, $o:ty, $t:ty, $p:ty, $n:ty) => {
        impl ThingStage<$o> for $t {
            type Next = $n;
            fn ext(b: ThingBuilder<Self, ToExtend>, c: &Call) -> ThingBuilder<$n, ToExtend> { add!(b.ext / ext_with, c, $p) }
            fn fin(_: ThingBuilder<Self, ToExtend>) -> ThingBuilder<$o, ToExtend> { no_stage() }
        }
    };
    (@ FormStage, $o:ty, $t:ty, $p:ty, $n:ty) => {
        impl FormStage<$o> for $t {
            type Next = $n;
            fn ext<H>(b: FormBuilder<$o, H, Self>, c: &Call) -> FormBuilder<$o, H, $n> { add!(b.ext / ext_with, c, $p) }
            fn fin<H>(_: FormBuilder<$o, H, Self>) -> FormBuilder<$o, H, <$o as ExtendableThing>::Form> { no_stage() }
        }
    };
    (@ IStage, $o:ty, $t:ty, $p:ty, $n:ty) => {
        impl IStage<$o> for $t {
            type Next = $n;
            fn ext_a<T>(b: ActionAffordanceBuilder<$o, Self, T>, c: &Call) -> ActionAffordanceBuilder<$o, $n, T> {
                add!(b.ext_interaction / ext_interaction_with, c, $p)
            }
            fn ext_e<T>(b: EventAffordanceBuilder<$o, Self, T>, c: &Call) -> EventAffordanceBuilder<$o, $n, T> {
                add!(b.ext_interaction / ext_interaction_with, c, $p)
            }
            fn ext_p<D, T>(b: PropertyAffordanceBuilder<$o, D, Self, T>, c: &Call) -> PropertyAffordanceBuilder<$o, D, $n, T> {
                add!(b.ext_interaction / ext_interaction_with, c, $p)
            }
            fn fin_a<T>(_: ActionAffordanceBuilder<$o, Self, T>) -> ActionAffordanceBuilder<$o, <$o as ExtendableThing>::InteractionAffordance, T> { no_stage() }
            fn fin_e<T>(_: EventAffordanceBuilder<$o, Self, T>) -> EventAffordanceBuilder<$o, <$o as ExtendableThing>::InteractionAffordance, T> { no_stage() }
            fn fin_p<D, T>(_: PropertyAffordanceBuilder<$o, D, Self, T>) -> PropertyAffordanceBuilder<$o, D, <$o as ExtendableThing>::InteractionAffordance, T> { no_stage() }
        }
    };
    (@ AStage, $o:ty, $t:ty, $p:ty, $n:ty) => {
        impl AStage<$o> for $t {
            type Next = $n;
            fn ext<T>(b: ActionAffordanceBuilder<$o, T, Self>, c: &Call) -> ActionAffordanceBuilder<$o, T, $n> { add!(b.ext / ext_with, c, $p) }
            fn fin<T>(_: ActionAffordanceBuilder<$o, T, Self>) -> ActionAffordanceBuilder<$o, T, <$o as ExtendableThing>::ActionAffordance> { no_stage() }
        }
    };
    (@ EStage, $o:ty, $t:ty, $p:ty, $n:ty) => {
        impl EStage<$o> for $t {
            type Next = $n;
            fn ext<T>(b: EventAffordanceBuilder<$o, T, Self>, c: &Call) -> EventAffordanceBuilder<$o, T, $n> { add!(b.ext / ext_with, c, $p) }
            fn fin<T>(_: EventAffordanceBuilder<$o, T, Self>) -> EventAffordanceBuilder<$o, T, <$o as ExtendableThing>::EventAffordance> { no_stage() }
        }
    };
    (@ PStage, $o:ty, $t:ty, $p:ty, $n:ty) => {
        impl PStage<$o> for $t {
            type Next = $n;
            fn ext<D, T>(b: PropertyAffordanceBuilder<$o, D, T, Self>, c: &Call) -> PropertyAffordanceBuilder<$o, D, T, $n> { add!(b.ext / ext_with, c, $p) }
            fn fin<D, T>(_: PropertyAffordanceBuilder<$o, D, T, Self>) -> PropertyAffordanceBuilder<$o, D, T, <$o as ExtendableThing>::PropertyAffordance> { no_stage() }
        }
    };
    (@ DStage, $o:ty, $t:ty, $p:ty, $n:ty) => {
        impl DStage<$o> for $t {
            type Next = $n;
            fn ext(b: Schema<$o, Self, ToExtend>, c: &Call) -> Schema<$o, $n, ToExtend> { add!(b.ext / ext_with, c, $p) }
            fn fin(_: Schema<$o, Self, ToExtend>) -> Schema<$o, <$o as ExtendableThing>::DataSchema, ToExtend> { no_stage() }
            fn ext_p<I, P>(b: PropertyAffordanceBuilder<$o, Partial<$o, Self, ToExtend>, I, P>, c: &Call)
                -> PropertyAffordanceBuilder<$o, Partial<$o, $n, ToExtend>, I, P> {
                add!(b.ext_data_schema / ext_data_schema_with, c, $p)
            }
            fn fin_p<I, P>(_: PropertyAffordanceBuilder<$o, Partial<$o, Self, ToExtend>, I, P>)
                -> PropertyAffordanceBuilder<$o, Partial<$o, <$o as ExtendableThing>::DataSchema, ToExtend>, I, P> { no_stage() }
            fn data_p<I, P>(_: PropertyAffordanceBuilder<$o, Partial<$o, Self, ToExtend>, I, P>, _: &Call)
                -> PropertyAffordanceBuilder<$o, Partial<$o, Self, ToExtend>, I, P> { no_stage() }
        }
    };
}

macro_rules! stages {
    ($tr:ident $o:ty; ) => {
        last_stage!($tr $o; Nil);
    };
    ($tr:ident $o:ty; $a:ty) => {
        next_stage!($tr $o; Nil, $a => Cons<$a, Nil>);
        last_stage!($tr $o; Cons<$a, Nil>);
    };
    ($tr:ident $o:ty; $a:ty, $b:ty) => {
        next_stage!($tr $o; Nil, $a => Cons<$a, Nil>);
        next_stage!($tr $o; Cons<$a, Nil>, $b => Cons<$b, Cons<$a, Nil>>);
        last_stage!($tr $o; Cons<$b, Cons<$a, Nil>>);
    };
}

/// Calls until the end, or until one of `arms` returns.
macro_rules! drive {
    ($b:ident, $calls:ident, $i:ident, $c:ident, $extra:ident, { $($pat:literal => $e:expr),* $(,)? }) => {
        while $i < $calls.len() {
            let $c = &$calls[$i];
            $i += 1;
            #[allow(unreachable_code)]
            { $b = match $c.m.as_str() {
                $($pat => $e,)*
                "attype" => $b.attype($c.v.str()),
                "title" => $b.title($c.v.str()),
                "titles" => $b.titles(ml($c)),
                "description" => $b.description($c.v.str()),
                "descriptions" => $b.descriptions(ml($c)),
                "unit" => $b.unit($c.v.str()),
                "format" => $b.format($c.v.str()),
                "default_value" => $b.default_value($c.v.value()),
                _ => $extra!($b, $c),
            }; }
        }
    };
}

/// A schema whose type is known; it may be marked read-only or write-only.
macro_rules! kind {
    ($b:ident, $calls:ident, $i:ident, $c:ident, $extra:ident, $end:ident, { $($arms:tt)* }) => {
        kind!($b, $calls, $i, $c, $extra, $end, { $($arms)* }, { $($arms)* })
    };
    ($b:ident, $calls:ident, $i:ident, $c:ident, $extra:ident, $end:ident, { $($arms:tt)* }, { $($marked:tt)* }) => {{
        drive!($b, $calls, $i, $c, $extra, {
            $($arms)*
            "read_only" => {
                let mut $b = $b.read_only();
                drive!($b, $calls, $i, $c, $extra, { $($marked)* });
                return $end!($b)
            },
            "write_only" => {
                let mut $b = $b.write_only();
                drive!($b, $calls, $i, $c, $extra, { $($marked)* });
                return $end!($b)
            },
        });
        return $end!($b)
    }};
}

macro_rules! phases {
    ($b:ident, $calls:ident, $i:ident, $c:ident, $extra:ident, $end:ident, $schema:ident, { $($string:tt)* }) => {
        drive!($b, $calls, $i, $c, $extra, {
            "tuple" => { let mut $b = $b.tuple(); phases!(@tuple $b, $calls, $i, $c, $extra, $end, $schema) },
            "tuple_ext" => { let mut $b = $b.tuple_ext(|_| ListOf::of($c.v.list())); phases!(@tuple $b, $calls, $i, $c, $extra, $end, $schema) },
            "vec" => { let mut $b = $b.vec(); phases!(@vec $b, $calls, $i, $c, $extra, $end, $schema) },
            "vec_ext" => { let mut $b = $b.vec_ext(|_| ListOf::of($c.v.list())); phases!(@vec $b, $calls, $i, $c, $extra, $end, $schema) },
            "object" => { let mut $b = $b.object(); phases!(@object $b, $calls, $i, $c, $extra, $end, $schema) },
            "object_ext" => { let mut $b = $b.object_ext(|_| ListOf::of($c.v.list())); phases!(@object $b, $calls, $i, $c, $extra, $end, $schema) },
            "bool" => { let mut $b = $b.bool(); kind!($b, $calls, $i, $c, $extra, $end, {}) },
            "null" => { let mut $b = $b.null(); kind!($b, $calls, $i, $c, $extra, $end, {}) },
            "number" => { let mut $b = $b.number(); kind!($b, $calls, $i, $c, $extra, $end, {
                "minimum" => $b.minimum($c.v.f64()), "exclusive_minimum" => $b.exclusive_minimum($c.v.f64()),
                "maximum" => $b.maximum($c.v.f64()), "exclusive_maximum" => $b.exclusive_maximum($c.v.f64()),
                "multiple_of" => $b.multiple_of($c.v.f64()),
            }) },
            "integer" => { let mut $b = $b.integer(); kind!($b, $calls, $i, $c, $extra, $end, {
                "minimum" => $b.minimum($c.v.num()), "exclusive_minimum" => $b.exclusive_minimum($c.v.num()),
                "maximum" => $b.maximum($c.v.num()), "exclusive_maximum" => $b.exclusive_maximum($c.v.num()),
                "multiple_of" => $b.multiple_of($c.v.num()),
            }) },
            "string" => { let mut $b = $b.string(); kind!($b, $calls, $i, $c, $extra, $end, { $($string)* }, {}) },
            "constant" => { let mut $b = $b.constant($c.v.value()); drive!($b, $calls, $i, $c, $extra, {}); return $end!($b) },
            "enumeration" => { let mut $b = $b.enumeration($c.v.value()); kind!($b, $calls, $i, $c, $extra, $end, {
                "enumeration" => $b.enumeration($c.v.value()),
            }) },
            "one_of" => {
                let mut $b = $b.one_of(|d| $schema(d, &$c.body));
                drive!($b, $calls, $i, $c, $extra, { "one_of" => $b.one_of(|d| $schema(d, &$c.body)), });
                return $end!($b)
            },
        });
    };
    (@tuple $b:ident, $calls:ident, $i:ident, $c:ident, $extra:ident, $end:ident, $schema:ident) => {
        kind!($b, $calls, $i, $c, $extra, $end, { "append" => $b.append(|d| $schema(d, &$c.body)), })
    };
    (@vec $b:ident, $calls:ident, $i:ident, $c:ident, $extra:ident, $end:ident, $schema:ident) => {
        kind!($b, $calls, $i, $c, $extra, $end, {
            "min_items" => $b.min_items($c.v.num()), "max_items" => $b.max_items($c.v.num()),
            "set_item" => $b.set_item(|d| $schema(d, &$c.body)),
        })
    };
    (@object $b:ident, $calls:ident, $i:ident, $c:ident, $extra:ident, $end:ident, $schema:ident) => {
        kind!($b, $calls, $i, $c, $extra, $end, {
            "property" => $b.property($c.key.clone(), $c.v.bool(), |d| $schema(d, &$c.body)),
        })
    };
}

/// The calls of texts and interactions, for actions and events.
macro_rules! interaction {
    ($b:ident, $c:ident, { $($pat:literal => $e:expr),* $(,)? }) => {
        match $c.m.as_str() {
            $($pat => $e,)*
            "attype" => $b.attype($c.v.str()),
            "title" => $b.title($c.v.str()),
            "titles" => $b.titles(ml($c)),
            "description" => $b.description($c.v.str()),
            "descriptions" => $b.descriptions(ml($c)),
            "form" => $b.form(|f| form(f, &$c.body)),
            "uri_variable" => $b.uri_variable($c.key.clone(), |d| schema(d, &$c.body)),
            _ => unknown($c),
        }
    };
}

macro_rules! family {
    ($name:ident, $o:ty; $($ext:ty),*) => {
        pub mod $name {
            #![allow(unused_mut, unused_variables, unused_assignments, unreachable_code, clippy::all)]
            use super::*;
            type O = $o;
            type OForm = <O as ExtendableThing>::Form;
            type OInt = <O as ExtendableThing>::InteractionAffordance;
            type OProp = <O as ExtendableThing>::PropertyAffordance;
            type OAct = <O as ExtendableThing>::ActionAffordance;
            type OEv = <O as ExtendableThing>::EventAffordance;
            type ODs = <O as ExtendableThing>::DataSchema;
            type OArr = <O as ExtendableThing>::ArraySchema;
            type OObj = <O as ExtendableThing>::ObjectSchema;

            stages!(ThingStage $o; $($ext),*);
            stages!(FormStage $o; $(<$ext as ExtendableThing>::Form),*);
            stages!(IStage $o; $(<$ext as ExtendableThing>::InteractionAffordance),*);
            stages!(PStage $o; $(<$ext as ExtendableThing>::PropertyAffordance),*);
            stages!(AStage $o; $(<$ext as ExtendableThing>::ActionAffordance),*);
            stages!(EStage $o; $(<$ext as ExtendableThing>::EventAffordance),*);
            stages!(DStage $o; $(<$ext as ExtendableThing>::DataSchema),*);

            fn form_any<H, F>(b: FormBuilder<O, H, F>, c: &Call) -> FormBuilder<O, H, F> {
                match c.m.as_str() {
                    "op" => b.op(op(&c.v)),
                    "content_type" => b.content_type(c.v.str()),
                    "content_coding" => b.content_coding(c.v.str()),
                    "subprotocol" => b.subprotocol(c.v.str()),
                    "security" => b.security(c.v.str()),
                    "scope" => b.scope(c.v.str()),
                    "response" => b.response(c.v.list()[0].str(), |_| ListOf::of(&c.v.list()[1..])),
                    "response_default_ext" => b.response_default_ext(c.v.list()[0].str()),
                    "additional_response" => b.additional_response(additional_response(c)),
                    _ => unknown(c),
                }
            }

            fn form<F: FormStage<O>>(mut b: FormBuilder<O, (), F>, calls: &[Call]) -> FormBuilder<O, String, OForm> {
                for (i, c) in calls.iter().enumerate() {
                    let rest = &calls[i + 1..];
                    match c.m.as_str() {
                        "href" => return form_href(b.href(c.v.str()), rest),
                        "ext" | "ext_with" => return form(F::ext(b, c), rest),
                        _ => b = form_any(b, c),
                    }
                }
                tool_error("form without target")
            }

            fn form_href<F: FormStage<O>>(mut b: FormBuilder<O, String, F>, calls: &[Call]) -> FormBuilder<O, String, OForm> {
                for (i, c) in calls.iter().enumerate() {
                    match c.m.as_str() {
                        "ext" | "ext_with" => return form_href(F::ext(b, c), &calls[i + 1..]),
                        _ => b = form_any(b, c),
                    }
                }
                F::fin(b)
            }

            pub(super) fn schema<D: DStage<O>>(mut b: Schema<O, D, ToExtend>, calls: &[Call]) -> Unchecked<O> {
                macro_rules! extra { ($b:ident, $c:ident) => { unknown($c) }; }
                let mut i = 0;
                drive!(b, calls, i, c, extra, {
                    "ext" => return schema(D::ext(b, c), &calls[i..]),
                    "ext_with" => return schema(D::ext(b, c), &calls[i..]),
                    "finish_extend" => return schema_kind(D::fin(b).finish_extend(), &calls[i..]),
                });
                tool_error("schema without kind")
            }

            fn schema_kind(mut b: Schema<O, ODs, Extended>, calls: &[Call]) -> Unchecked<O> {
                macro_rules! extra { ($b:ident, $c:ident) => { unknown($c) }; }
                macro_rules! end { ($b:ident) => { $b.into() }; }
                let mut i = 0;
                phases!(b, calls, i, c, extra, end, schema, {
                    "min_length" => b.min_length(c.v.num()), "max_length" => b.max_length(c.v.num()),
                    "pattern" => b.pattern(c.v.str()), "content_encoding" => b.content_encoding(c.v.str()),
                    "content_media_type" => b.content_media_type(c.v.str()),
                });
                tool_error("schema without kind")
            }

            type Property = PropertyAffordanceBuilder<O, PartialDataSchema<ODs, OArr, OObj>, OInt, OProp>;

            fn property<D: DStage<O>, I: IStage<O>, P: PStage<O>>(
                mut b: PropertyAffordanceBuilder<O, Partial<O, D, ToExtend>, I, P>,
                calls: &[Call],
            ) -> Property {
                for (i, c) in calls.iter().enumerate() {
                    let rest = &calls[i + 1..];
                    b = interaction!(b, c, {
                        "ext" => return property(P::ext(b, c), rest),
                        "ext_with" => return property(P::ext(b, c), rest),
                        "ext_interaction" => return property(I::ext_p(b, c), rest),
                        "ext_interaction_with" => return property(I::ext_p(b, c), rest),
                        "ext_data_schema" => return property(D::ext_p(b, c), rest),
                        "ext_data_schema_with" => return property(D::ext_p(b, c), rest),
                        "finish_extend" => return property_kind(P::fin(I::fin_p(D::fin_p(b))).finish_extend_data_schema(), rest),
                        "observable" => b.observable(c.v.bool()),
                        "unit" => D::data_p(b, c),
                        "format" => D::data_p(b, c),
                        "default_value" => D::data_p(b, c),
                    });
                }
                tool_error("property without kind")
            }

            fn property_kind(
                mut b: PropertyAffordanceBuilder<O, Partial<O, ODs, Extended>, OInt, OProp>,
                calls: &[Call],
            ) -> Property {
                macro_rules! extra { ($b:ident, $c:ident) => { property_extra!($b, $c) }; }
                macro_rules! end { ($b:ident) => { IntoUsable::<Property>::into_usable($b) }; }
                let mut i = 0;
                phases!(b, calls, i, c, extra, end, schema, {});
                tool_error("property without kind")
            }

            fn action<I: IStage<O>, A: AStage<O>>(
                mut b: ActionAffordanceBuilder<O, I, A>,
                calls: &[Call],
            ) -> ActionAffordanceBuilder<O, OInt, OAct> {
                for (i, c) in calls.iter().enumerate() {
                    let rest = &calls[i + 1..];
                    b = interaction!(b, c, {
                        "ext" => return action(A::ext(b, c), rest),
                        "ext_with" => return action(A::ext(b, c), rest),
                        "ext_interaction" => return action(I::ext_a(b, c), rest),
                        "ext_interaction_with" => return action(I::ext_a(b, c), rest),
                        "input" => b.input(|d| schema(d, &c.body)),
                        "output" => b.output(|d| schema(d, &c.body)),
                        "safe" => b.safe(),
                        "idempotent" => b.idempotent(),
                        "synchronous" => b.synchronous(c.v.bool()),
                    });
                }
                A::fin(I::fin_a(b))
            }

            fn event<I: IStage<O>, E: EStage<O>>(
                mut b: EventAffordanceBuilder<O, I, E>,
                calls: &[Call],
            ) -> EventAffordanceBuilder<O, OInt, OEv> {
                for (i, c) in calls.iter().enumerate() {
                    let rest = &calls[i + 1..];
                    b = interaction!(b, c, {
                        "ext" => return event(E::ext(b, c), rest),
                        "ext_with" => return event(E::ext(b, c), rest),
                        "ext_interaction" => return event(I::ext_e(b, c), rest),
                        "ext_interaction_with" => return event(I::ext_e(b, c), rest),
                        "subscription" => b.subscription(|d| schema(d, &c.body)),
                        "data" => b.data(|d| schema(d, &c.body)),
                        "data_response" => b.data_response(|d| schema(d, &c.body)),
                        "cancellation" => b.cancellation(|d| schema(d, &c.body)),
                    });
                }
                E::fin(I::fin_e(b))
            }

            fn thing<S: ThingStage<O>>(mut b: ThingBuilder<S, ToExtend>, calls: &[Call]) -> Result<Thing<O>, Error> {
                for (i, c) in calls.iter().enumerate() {
                    let rest = &calls[i + 1..];
                    match c.m.as_str() {
                        "ext" | "ext_with" => return thing(S::ext(b, c), rest),
                        "finish_extend" => return thing_extended(S::fin(b).finish_extend(), rest),
                        _ => b = thing_any(b, c),
                    }
                }
                S::fin(b).build()
            }

            fn thing_extended(mut b: ThingBuilder<O, Extended>, calls: &[Call]) -> Result<Thing<O>, Error> {
                for c in calls {
                    b = match c.m.as_str() {
                        "form" => b.form(|f| form(f, &c.body)),
                        "uri_variable" => b.uri_variable(c.key.clone(), |d| schema(d, &c.body)),
                        "schema_definition" => b.schema_definition(c.key.clone(), |d| schema(d, &c.body)),
                        "property" => b.property(c.key.clone(), |p| property(p, &c.body)),
                        "action" => b.action(c.key.clone(), |a| action(a, &c.body)),
                        "event" => b.event(c.key.clone(), |e| event(e, &c.body)),
                        _ => thing_any(b, c),
                    };
                }
                b.build()
            }

            pub fn build(p: &Prog) -> Result<Thing<O>, Error> {
                // all the ways to start
                match (p.title.len() + p.calls.len()) % 3 {
                    0 => thing(ThingBuilder::<Nil, ToExtend>::new(p.title.clone()), &p.calls),
                    1 => thing(ThingBuilder::<O, ToExtend>::new_empty(p.title.clone()), &p.calls),
                    _ => thing(Thing::<Nil>::builder(p.title.clone()), &p.calls),
                }
            }

            fn examine(t: &Thing<O>) -> Built {
                let mut issues = vec![];
                let written = serde_json::to_string(t);
                let txt = match written {
                    Ok(txt) => txt,
                    Err(e) => return Built { text: Err(e.to_string()), issues, unknown: vec![] },
                };
                match serde_json::from_str::<Thing<O>>(&txt) {
                    Err(e) => issues.push((vec!["C14"], format!("the text of the description is refused: {e}"))),
                    Ok(u) => {
                        let again = serde_json::to_string(&u);
                        same_text(&txt, again.map_err(|e| e.to_string()), "writing the description that was read", &mut issues);
                        if u != *t {
                            issues.push((vec!["C14", "C22"], "the description read from its own text is not equal to it".into()));
                        }
                    }
                }
                match serde_json::to_value(t) {
                    Err(e) => issues.push((vec!["C14"], format!("no JSON value: {e}"))),
                    Ok(v) => {
                        same_text(&txt, Ok(v.to_string()), "the JSON value of the description", &mut issues);
                        match serde_json::from_value::<Thing<O>>(v) {
                            Err(e) => issues.push((vec!["C14"], format!("the JSON value of the description is refused: {e}"))),
                            Ok(u) => {
                                if u != *t {
                                    issues.push((vec!["C14", "C22"], "the description read from its own JSON value is not equal to it".into()));
                                }
                            }
                        }
                    }
                }
                if t != t {
                    issues.push((vec!["C22"], "the description is not equal to itself".into()));
                }
                for f in forms(t) {
                    let g = f.clone();
                    if g != *f || serde_json::to_string(&g).ok() != serde_json::to_string(f).ok() {
                        issues.push((vec!["C22"], "the copy of a form differs from it".into()));
                    }
                }
                let unknown = t.security_definitions.iter().filter_map(|(k, s)| match &s.subtype {
                    wot_td::thing::SecuritySchemeSubtype::Known(_) => None,
                    wot_td::thing::SecuritySchemeSubtype::Unknown(u) => Some((k.clone(), u.scheme.clone())),
                }).collect();
                Built { text: Ok(txt), issues, unknown }
            }

            fn forms(t: &Thing<O>) -> Vec<&Form<O>> {
                let mut v: Vec<&Form<O>> = t.forms.iter().flatten().collect();
                v.extend(t.properties.iter().flat_map(|m| m.values()).flat_map(|a| &a.interaction.forms));
                v.extend(t.actions.iter().flat_map(|m| m.values()).flat_map(|a| &a.interaction.forms));
                v.extend(t.events.iter().flat_map(|m| m.values()).flat_map(|a| &a.interaction.forms));
                v
            }

            pub fn run(progs: &[Prog]) -> Group {
                let mut first: Option<Thing<O>> = None;
                let mut g = Group { outcomes: vec![], equal: vec![] };
                for (i, p) in progs.iter().enumerate() {
                    let r = catch(|| build(p));
                    let mut eq = None;
                    let o = match r {
                        Err(m) => Outcome::Panic(m),
                        Ok(Err(e)) => Outcome::Failed(failure(e)),
                        Ok(Ok(t)) => {
                            if let Some(f) = &first {
                                eq = Some(*f == t);
                                if (t == *f) != (*f == t) {
                                    eq = None;
                                }
                            }
                            let b = catch(|| examine(&t));
                            if i == 0 {
                                first = Some(t);
                            }
                            match b {
                                Ok(b) => Outcome::Built(b),
                                Err(m) => Outcome::Panic(m),
                            }
                        }
                    };
                    g.outcomes.push(o);
                    g.equal.push(eq);
                }
                g
            }

            pub fn read(texts: &[String]) -> ReadGroup {
                let mut first: Option<Thing<O>> = None;
                let mut g = ReadGroup { outs: vec![], equal: vec![] };
                for (i, s) in texts.iter().enumerate() {
                    // every second text is read through a JSON value
                    let r = catch(|| if i % 2 == 0 {
                        serde_json::from_str::<Thing<O>>(s)
                    } else {
                        serde_json::from_str::<Value>(s).and_then(serde_json::from_value)
                    });
                    let mut eq = None;
                    let o = match r {
                        Err(m) => ReadOut::Panic(m),
                        Ok(Err(e)) => ReadOut::Refused(e.to_string()),
                        Ok(Ok(t)) => {
                            eq = first.as_ref().map(|f| *f == t && t == *f);
                            let b = catch(|| examine(&t));
                            if i == 0 {
                                first = Some(t);
                            }
                            match b {
                                Ok(b) => ReadOut::Read(b),
                                Err(m) => ReadOut::Panic(m),
                            }
                        }
                    };
                    g.outs.push(o);
                    g.equal.push(eq);
                }
                g
            }
        }
    };
}

macro_rules! property_extra {
    ($b:ident, $c:ident) => {
        match $c.m.as_str() {
            "observable" => $b.observable($c.v.bool()),
            "form" => $b.form(|f| form(f, &$c.body)),
            "uri_variable" => $b.uri_variable($c.key.clone(), |d| schema(d, &$c.body)),
            _ => unknown($c),
        }
    };
}

fn same_text(want: &str, got: Result<String, String>, what: &str, issues: &mut Vec<(Vec<&'static str>, String)>) {
    let got = match got {
        Ok(g) => g,
        Err(e) => return issues.push((vec!["C14"], format!("{what} fails: {e}"))),
    };
    if let (Ok(a), Ok(b)) = (crate::j::parse(want), crate::j::parse(&got)) {
        let mut d = vec![];
        crate::j::compare(&a, &b, &mut vec![], &mut d);
        if let Some(d) = d.first() {
            issues.push((vec!["C14"], format!("{what} differs at /{}: {} instead of {}", d.path.join("/"), d.got, d.want)));
        }
    }
}

/// Runs code of the library; a panic is an outcome.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

family!(none, Nil;);
family!(a, Cons<ExtA, Nil>; ExtA);
family!(ab, Cons<ExtB, Cons<ExtA, Nil>>; ExtA, ExtB);
family!(http1, Cons<http::HttpProtocol, Nil>; http::HttpProtocol);
family!(coap1, Cons<coap::CoapProtocol, Nil>; coap::CoapProtocol);
family!(mqtt1, Cons<mqtt::MqttProtocol, Nil>; mqtt::MqttProtocol);

/// Schemas made on their own, without a description that holds them.
pub mod alone {
    #![allow(unused_mut, unused_variables, unused_assignments, unreachable_code, clippy::all)]
    use super::none::schema;
    use super::*;
    type DataSchema = wot_td::thing::DataSchema<Nil, Nil, Nil>;

    fn build(calls: &[Call]) -> Result<DataSchema, Error> {
        macro_rules! extra { ($b:ident, $c:ident) => { unknown($c) }; }
        macro_rules! end { ($b:ident) => { $b.try_into() }; }
        let mut b = DataSchemaBuilder::<Nil, Nil, Nil, Extended>::default();
        let mut i = 0;
        phases!(b, calls, i, c, extra, end, schema, {
            "min_length" => b.min_length(c.v.num()), "max_length" => b.max_length(c.v.num()),
            "pattern" => b.pattern(c.v.str()), "content_encoding" => b.content_encoding(c.v.str()),
            "content_media_type" => b.content_media_type(c.v.str()),
        });
        tool_error("schema without kind")
    }

    /// The text of the schema, and whether the schema read from it equals it.
    pub fn text(calls: &[Call]) -> Result<Result<(String, Result<bool, String>), Failure>, String> {
        let calls: Vec<Call> = calls.iter().filter(|c| c.m != "finish_extend").cloned().collect();
        catch(|| {
            build(&calls).map_err(failure).map(|s| {
                let text = serde_json::to_string(&s).unwrap_or_else(|e| e.to_string());
                let back = serde_json::from_str::<DataSchema>(&text).map(|r| r == s && s == r && s.clone() == s);
                (text, back.map_err(|e| e.to_string()))
            })
        })
    }
}

macro_rules! dispatch {
    ($fam:expr, $f:ident, $x:expr) => {
        match $fam {
            "" => none::$f($x),
            "a" => a::$f($x),
            "a,b" => ab::$f($x),
            "http" => http1::$f($x),
            "coap" => coap1::$f($x),
            "mqtt" => mqtt1::$f($x),
            f => tool_error(&format!("unknown family {f}")),
        }
    };
}

pub fn run(fam: &str, progs: &[Prog]) -> Group {
    dispatch!(fam, run, progs)
}

pub fn read(fam: &str, texts: &[String]) -> ReadGroup {
    dispatch!(fam, read, texts)
}

