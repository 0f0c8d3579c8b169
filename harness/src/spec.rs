//! Copy of the FoLiA specification tables (v2.x) that the monitors check against;
//! independent of the tables in the code under test.
#![allow(dead_code)]
use folia::{ElementType,ElementGroup,AnnotationType};

pub struct Spec { pub et: ElementType, pub tag: &'static str, pub at: Option<AnnotationType>, pub printable: bool, pub hidden: bool, pub textcontainer: bool, pub phoncontainer: bool, pub delimiter: Option<&'static str>, pub wrefable: bool, pub subset: Option<&'static str>, pub space: bool, pub acc_types: &'static [ElementType], pub acc_groups: &'static [ElementGroup] }

pub static SPEC: &[Spec] = &[
    Spec{et:ElementType::ActorFeature,tag:"actor",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("actor"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::Alternative,tag:"alt",at:Some(AnnotationType::ALTERNATIVE),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::MorphologyLayer,ElementType::PhonologyLayer],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::AlternativeLayers,tag:"altlayers",at:Some(AnnotationType::ALTERNATIVE),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::ForeignData],acc_groups:&[ElementGroup::Layer]},
    Spec{et:ElementType::BegindatetimeFeature,tag:"begindatetime",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("begindatetime"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::Linebreak,tag:"br",at:Some(AnnotationType::LINEBREAK),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some(""),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::Part,ElementType::Relation],acc_groups:&[ElementGroup::Layer]},
    Spec{et:ElementType::Caption,tag:"caption",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Gap,ElementType::Linebreak,ElementType::Metric,ElementType::Paragraph,ElementType::Part,ElementType::PhonContent,ElementType::Quote,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::TextContent,ElementType::Whitespace],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Cell,tag:"cell",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some(" | "),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Entry,ElementType::Event,ElementType::Example,ElementType::External,ElementType::Feature,ElementType::Figure,ElementType::ForeignData,ElementType::Gap,ElementType::Head,ElementType::Hiddenword,ElementType::Linebreak,ElementType::List,ElementType::Metric,ElementType::Note,ElementType::Paragraph,ElementType::Part,ElementType::Quote,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::TextContent,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Chunk,tag:"chunk",at:Some(AnnotationType::CHUNKING),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::ChunkingLayer,tag:"chunking",at:Some(AnnotationType::CHUNKING),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Chunk,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData],acc_groups:&[]},
    Spec{et:ElementType::Comment,tag:"comment",at:Some(AnnotationType::COMMENT),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::Content,tag:"content",at:Some(AnnotationType::RAWCONTENT),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::CoreferenceChain,tag:"coreferencechain",at:Some(AnnotationType::COREFERENCE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::CoreferenceLink,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::CoreferenceLink,tag:"coreferencelink",at:Some(AnnotationType::COREFERENCE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Headspan,ElementType::LevelFeature,ElementType::LinkReference,ElementType::Metric,ElementType::ModalityFeature,ElementType::Relation,ElementType::TimeFeature,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::CoreferenceLayer,tag:"coreferences",at:Some(AnnotationType::COREFERENCE),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::CoreferenceChain,ElementType::Correction,ElementType::Description,ElementType::ForeignData],acc_groups:&[]},
    Spec{et:ElementType::Correction,tag:"correction",at:Some(AnnotationType::CORRECTION),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Current,ElementType::Description,ElementType::ErrorDetection,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::New,ElementType::Original,ElementType::Suggestion],acc_groups:&[]},
    Spec{et:ElementType::Cue,tag:"cue",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::Current,tag:"current",at:Some(AnnotationType::CORRECTION),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::Metric,ElementType::PhonContent,ElementType::String,ElementType::TextContent],acc_groups:&[ElementGroup::Inline,ElementGroup::Span,ElementGroup::Structure]},
    Spec{et:ElementType::Definition,tag:"def",at:Some(AnnotationType::DEFINITION),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::Figure,ElementType::ForeignData,ElementType::Hiddenword,ElementType::Linebreak,ElementType::List,ElementType::Metric,ElementType::Paragraph,ElementType::Part,ElementType::PhonContent,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::Table,ElementType::TextContent,ElementType::Utterance,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::DependencyDependent,tag:"dep",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::DependenciesLayer,tag:"dependencies",at:Some(AnnotationType::DEPENDENCY),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Dependency,ElementType::Description,ElementType::ForeignData],acc_groups:&[]},
    Spec{et:ElementType::Dependency,tag:"dependency",at:Some(AnnotationType::DEPENDENCY),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::DependencyDependent,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Headspan,ElementType::LinkReference,ElementType::Metric,ElementType::Relation],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::Description,tag:"desc",at:Some(AnnotationType::DESCRIPTION),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::Division,tag:"div",at:Some(AnnotationType::DIVISION),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Division,ElementType::Entry,ElementType::Event,ElementType::Example,ElementType::External,ElementType::Feature,ElementType::Figure,ElementType::ForeignData,ElementType::Gap,ElementType::Head,ElementType::Linebreak,ElementType::List,ElementType::Metric,ElementType::Note,ElementType::Paragraph,ElementType::Part,ElementType::PhonContent,ElementType::Quote,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::Table,ElementType::TextContent,ElementType::Utterance,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::DomainAnnotation,tag:"domain",at:Some(AnnotationType::DOMAIN),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Metric],acc_groups:&[]},
    Spec{et:ElementType::EnddatetimeFeature,tag:"enddatetime",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("enddatetime"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::EntitiesLayer,tag:"entities",at:Some(AnnotationType::ENTITY),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Entity,ElementType::ForeignData],acc_groups:&[]},
    Spec{et:ElementType::Entity,tag:"entity",at:Some(AnnotationType::ENTITY),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::Entry,tag:"entry",at:Some(AnnotationType::ENTRY),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Definition,ElementType::Description,ElementType::Example,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::Part,ElementType::Relation,ElementType::String,ElementType::Term,ElementType::TextContent],acc_groups:&[ElementGroup::Layer]},
    Spec{et:ElementType::ErrorDetection,tag:"errordetection",at:Some(AnnotationType::ERRORDETECTION),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Metric],acc_groups:&[]},
    Spec{et:ElementType::Event,tag:"event",at:Some(AnnotationType::EVENT),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::ActorFeature,ElementType::Alternative,ElementType::AlternativeLayers,ElementType::BegindatetimeFeature,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Division,ElementType::EnddatetimeFeature,ElementType::Entry,ElementType::Event,ElementType::Example,ElementType::External,ElementType::Feature,ElementType::Figure,ElementType::ForeignData,ElementType::Gap,ElementType::Head,ElementType::Hiddenword,ElementType::Linebreak,ElementType::List,ElementType::Metric,ElementType::Note,ElementType::Paragraph,ElementType::Part,ElementType::PhonContent,ElementType::Quote,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::Table,ElementType::TextContent,ElementType::Utterance,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Example,tag:"ex",at:Some(AnnotationType::EXAMPLE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::Figure,ElementType::ForeignData,ElementType::Hiddenword,ElementType::Linebreak,ElementType::List,ElementType::Metric,ElementType::Paragraph,ElementType::Part,ElementType::PhonContent,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::Table,ElementType::TextContent,ElementType::Utterance,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::External,tag:"external",at:Some(AnnotationType::EXTERNAL),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[],acc_groups:&[]},
    Spec{et:ElementType::Feature,tag:"feat",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::Figure,tag:"figure",at:Some(AnnotationType::FIGURE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Caption,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Linebreak,ElementType::Metric,ElementType::Part,ElementType::Relation,ElementType::String,ElementType::TextContent],acc_groups:&[ElementGroup::Layer]},
    Spec{et:ElementType::FontFeature,tag:"font",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("font"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::ForeignData,tag:"foreign-data",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::FunctionFeature,tag:"function",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("function"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::Gap,tag:"gap",at:Some(AnnotationType::GAP),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Content,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::Part],acc_groups:&[]},
    Spec{et:ElementType::Headspan,tag:"hd",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::Head,tag:"head",at:Some(AnnotationType::HEAD),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Event,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Gap,ElementType::Hiddenword,ElementType::Linebreak,ElementType::Metric,ElementType::Paragraph,ElementType::Part,ElementType::PhonContent,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::TextContent,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::HeadFeature,tag:"headfeature",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("head"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::Hiddenword,tag:"hiddenw",at:Some(AnnotationType::HIDDENTOKEN),printable:true,hidden:true,textcontainer:false,phoncontainer:false,delimiter:Some(" "),wrefable:true,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::Part,ElementType::PhonContent,ElementType::Reference,ElementType::Relation,ElementType::String,ElementType::TextContent],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::ListItem,tag:"item",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Event,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Gap,ElementType::Hiddenword,ElementType::Label,ElementType::Linebreak,ElementType::List,ElementType::Metric,ElementType::Note,ElementType::Paragraph,ElementType::Part,ElementType::PhonContent,ElementType::Quote,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::TextContent,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Label,tag:"label",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Hiddenword,ElementType::Linebreak,ElementType::Metric,ElementType::Part,ElementType::PhonContent,ElementType::Reference,ElementType::Relation,ElementType::String,ElementType::TextContent,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::LangAnnotation,tag:"lang",at:Some(AnnotationType::LANG),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Metric],acc_groups:&[]},
    Spec{et:ElementType::LemmaAnnotation,tag:"lemma",at:Some(AnnotationType::LEMMA),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Metric],acc_groups:&[]},
    Spec{et:ElementType::LevelFeature,tag:"level",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("level"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::List,tag:"list",at:Some(AnnotationType::LIST),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Caption,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Event,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Linebreak,ElementType::ListItem,ElementType::Metric,ElementType::Note,ElementType::Part,ElementType::PhonContent,ElementType::Reference,ElementType::Relation,ElementType::String,ElementType::TextContent],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Metric,tag:"metric",at:Some(AnnotationType::METRIC),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::ValueFeature],acc_groups:&[]},
    Spec{et:ElementType::ModalityFeature,tag:"mod",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("mod"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::ModalitiesLayer,tag:"modalities",at:Some(AnnotationType::MODALITY),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::Modality],acc_groups:&[]},
    Spec{et:ElementType::Modality,tag:"modality",at:Some(AnnotationType::MODALITY),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Cue,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::PolarityFeature,ElementType::Relation,ElementType::Scope,ElementType::Source,ElementType::StrengthFeature,ElementType::Target],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::Morpheme,tag:"morpheme",at:Some(AnnotationType::MORPHOLOGICAL),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some(""),wrefable:true,subset:None,space:false,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::FunctionFeature,ElementType::Metric,ElementType::Morpheme,ElementType::Part,ElementType::PhonContent,ElementType::Relation,ElementType::String,ElementType::TextContent],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::MorphologyLayer,tag:"morphology",at:Some(AnnotationType::MORPHOLOGICAL),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::Morpheme],acc_groups:&[]},
    Spec{et:ElementType::New,tag:"new",at:Some(AnnotationType::CORRECTION),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::Metric,ElementType::PhonContent,ElementType::String,ElementType::TextContent],acc_groups:&[ElementGroup::Inline,ElementGroup::Span,ElementGroup::Structure]},
    Spec{et:ElementType::Note,tag:"note",at:Some(AnnotationType::NOTE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Example,ElementType::External,ElementType::Feature,ElementType::Figure,ElementType::ForeignData,ElementType::Head,ElementType::Hiddenword,ElementType::Linebreak,ElementType::List,ElementType::Metric,ElementType::Paragraph,ElementType::Part,ElementType::PhonContent,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::Table,ElementType::TextContent,ElementType::Utterance,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Observation,tag:"observation",at:Some(AnnotationType::OBSERVATION),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::ObservationLayer,tag:"observations",at:Some(AnnotationType::OBSERVATION),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::Observation],acc_groups:&[]},
    Spec{et:ElementType::Original,tag:"original",at:Some(AnnotationType::CORRECTION),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::Metric,ElementType::PhonContent,ElementType::String,ElementType::TextContent],acc_groups:&[ElementGroup::Inline,ElementGroup::Span,ElementGroup::Structure]},
    Spec{et:ElementType::Paragraph,tag:"p",at:Some(AnnotationType::PARAGRAPH),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Entry,ElementType::Event,ElementType::Example,ElementType::External,ElementType::Feature,ElementType::Figure,ElementType::ForeignData,ElementType::Gap,ElementType::Head,ElementType::Hiddenword,ElementType::Linebreak,ElementType::List,ElementType::Metric,ElementType::Note,ElementType::Part,ElementType::PhonContent,ElementType::Quote,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::TextContent,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Part,tag:"part",at:Some(AnnotationType::PART),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some(" "),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::Part,ElementType::PhonContent,ElementType::Relation,ElementType::TextContent],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline,ElementGroup::Structure]},
    Spec{et:ElementType::PhonContent,tag:"ph",at:Some(AnnotationType::PHON),printable:false,hidden:false,textcontainer:false,phoncontainer:true,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature],acc_groups:&[]},
    Spec{et:ElementType::Phoneme,tag:"phoneme",at:Some(AnnotationType::PHONOLOGICAL),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some(""),wrefable:true,subset:None,space:false,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::FunctionFeature,ElementType::Metric,ElementType::Part,ElementType::PhonContent,ElementType::Phoneme,ElementType::Relation,ElementType::String,ElementType::TextContent],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::PhonologyLayer,tag:"phonology",at:Some(AnnotationType::PHONOLOGICAL),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::Phoneme],acc_groups:&[]},
    Spec{et:ElementType::PolarityFeature,tag:"polarity",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("polarity"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::PosAnnotation,tag:"pos",at:Some(AnnotationType::POS),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::HeadFeature,ElementType::Metric],acc_groups:&[]},
    Spec{et:ElementType::Predicate,tag:"predicate",at:Some(AnnotationType::PREDICATE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::SemanticRole,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::Quote,tag:"quote",at:Some(AnnotationType::QUOTE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Division,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Gap,ElementType::Hiddenword,ElementType::Linebreak,ElementType::Metric,ElementType::Paragraph,ElementType::Part,ElementType::Quote,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::TextContent,ElementType::Utterance,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Reference,tag:"ref",at:Some(AnnotationType::REFERENCE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some(" "),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Hiddenword,ElementType::Linebreak,ElementType::Metric,ElementType::Paragraph,ElementType::Part,ElementType::PhonContent,ElementType::Quote,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::TextContent,ElementType::Utterance,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer]},
    Spec{et:ElementType::StatementRelation,tag:"rel",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::Relation,tag:"relation",at:Some(AnnotationType::RELATION),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric],acc_groups:&[]},
    Spec{et:ElementType::Row,tag:"row",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Cell,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::Part,ElementType::Relation],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Sentence,tag:"s",at:Some(AnnotationType::SENTENCE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some(" "),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Entry,ElementType::Event,ElementType::Example,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Gap,ElementType::Hiddenword,ElementType::Linebreak,ElementType::Metric,ElementType::Note,ElementType::Part,ElementType::PhonContent,ElementType::Quote,ElementType::Reference,ElementType::Relation,ElementType::String,ElementType::TextContent,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Scope,tag:"scope",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Cue,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::Source,ElementType::Target,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::SemanticRole,tag:"semrole",at:Some(AnnotationType::SEMROLE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Headspan,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::SemanticRolesLayer,tag:"semroles",at:Some(AnnotationType::SEMROLE),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::Predicate,ElementType::SemanticRole],acc_groups:&[]},
    Spec{et:ElementType::SenseAnnotation,tag:"sense",at:Some(AnnotationType::SENSE),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::SynsetFeature],acc_groups:&[]},
    Spec{et:ElementType::Sentiment,tag:"sentiment",at:Some(AnnotationType::SENTIMENT),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Headspan,ElementType::LinkReference,ElementType::Metric,ElementType::PolarityFeature,ElementType::Relation,ElementType::Source,ElementType::StrengthFeature,ElementType::Target,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::SentimentLayer,tag:"sentiments",at:Some(AnnotationType::SENTIMENT),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::Sentiment],acc_groups:&[]},
    Spec{et:ElementType::SizeFeature,tag:"size",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("size"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::Source,tag:"source",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::SpanRelation,tag:"spanrelation",at:Some(AnnotationType::SPANRELATION),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::Relation],acc_groups:&[]},
    Spec{et:ElementType::SpanRelationLayer,tag:"spanrelations",at:Some(AnnotationType::SPANRELATION),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::SpanRelation],acc_groups:&[]},
    Spec{et:ElementType::Speech,tag:"speech",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Division,ElementType::Entry,ElementType::Event,ElementType::Example,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Gap,ElementType::Hiddenword,ElementType::List,ElementType::Metric,ElementType::Note,ElementType::Paragraph,ElementType::Part,ElementType::PhonContent,ElementType::Quote,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::TextContent,ElementType::Utterance,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Statement,tag:"statement",at:Some(AnnotationType::STATEMENT),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Headspan,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::Source,ElementType::StatementRelation,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::StatementLayer,tag:"statements",at:Some(AnnotationType::STATEMENT),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::Statement],acc_groups:&[]},
    Spec{et:ElementType::String,tag:"str",at:Some(AnnotationType::STRING),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::PhonContent,ElementType::Relation,ElementType::TextContent],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::StrengthFeature,tag:"strength",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("strength"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::StyleFeature,tag:"style",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("style"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::SyntacticUnit,tag:"su",at:Some(AnnotationType::SYNTAX),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::SyntacticUnit,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::SubjectivityAnnotation,tag:"subjectivity",at:Some(AnnotationType::SUBJECTIVITY),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::Metric],acc_groups:&[]},
    Spec{et:ElementType::Suggestion,tag:"suggestion",at:Some(AnnotationType::CORRECTION),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::Metric,ElementType::PhonContent,ElementType::String,ElementType::TextContent],acc_groups:&[ElementGroup::Inline,ElementGroup::Span,ElementGroup::Structure]},
    Spec{et:ElementType::SynsetFeature,tag:"synset",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("synset"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::SyntaxLayer,tag:"syntax",at:Some(AnnotationType::SYNTAX),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::SyntacticUnit],acc_groups:&[]},
    Spec{et:ElementType::TextContent,tag:"t",at:Some(AnnotationType::TEXT),printable:true,hidden:false,textcontainer:true,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::Linebreak],acc_groups:&[ElementGroup::TextMarkup]},
    Spec{et:ElementType::TextMarkupCorrection,tag:"t-correction",at:Some(AnnotationType::CORRECTION),printable:true,hidden:false,textcontainer:true,phoncontainer:false,delimiter:Some(""),wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::Linebreak],acc_groups:&[ElementGroup::TextMarkup]},
    Spec{et:ElementType::TextMarkupError,tag:"t-error",at:Some(AnnotationType::ERRORDETECTION),printable:true,hidden:false,textcontainer:true,phoncontainer:false,delimiter:Some(""),wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::Linebreak],acc_groups:&[ElementGroup::TextMarkup]},
    Spec{et:ElementType::TextMarkupGap,tag:"t-gap",at:Some(AnnotationType::GAP),printable:true,hidden:false,textcontainer:true,phoncontainer:false,delimiter:Some(""),wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::Linebreak],acc_groups:&[ElementGroup::TextMarkup]},
    Spec{et:ElementType::Hyphbreak,tag:"t-hbr",at:Some(AnnotationType::HYPHENATION),printable:true,hidden:false,textcontainer:true,phoncontainer:false,delimiter:Some(""),wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::Linebreak],acc_groups:&[ElementGroup::TextMarkup]},
    Spec{et:ElementType::TextMarkupHSpace,tag:"t-hspace",at:Some(AnnotationType::HSPACE),printable:true,hidden:false,textcontainer:true,phoncontainer:false,delimiter:Some(""),wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::Linebreak],acc_groups:&[ElementGroup::TextMarkup]},
    Spec{et:ElementType::TextMarkupLanguage,tag:"t-lang",at:Some(AnnotationType::LANG),printable:true,hidden:false,textcontainer:true,phoncontainer:false,delimiter:Some(""),wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::Linebreak],acc_groups:&[ElementGroup::TextMarkup]},
    Spec{et:ElementType::TextMarkupReference,tag:"t-ref",at:Some(AnnotationType::REFERENCE),printable:true,hidden:false,textcontainer:true,phoncontainer:false,delimiter:Some(""),wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::Linebreak],acc_groups:&[ElementGroup::TextMarkup]},
    Spec{et:ElementType::TextMarkupString,tag:"t-str",at:Some(AnnotationType::STRING),printable:true,hidden:false,textcontainer:true,phoncontainer:false,delimiter:Some(""),wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::Linebreak],acc_groups:&[ElementGroup::TextMarkup]},
    Spec{et:ElementType::TextMarkupStyle,tag:"t-style",at:Some(AnnotationType::STYLE),printable:true,hidden:false,textcontainer:true,phoncontainer:false,delimiter:Some(""),wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::FontFeature,ElementType::Linebreak,ElementType::SizeFeature],acc_groups:&[ElementGroup::TextMarkup]},
    Spec{et:ElementType::TextMarkupWhitespace,tag:"t-whitespace",at:Some(AnnotationType::WHITESPACE),printable:true,hidden:false,textcontainer:true,phoncontainer:false,delimiter:Some(""),wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::Linebreak],acc_groups:&[ElementGroup::TextMarkup]},
    Spec{et:ElementType::Table,tag:"table",at:Some(AnnotationType::TABLE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Linebreak,ElementType::Metric,ElementType::Part,ElementType::Relation,ElementType::Row,ElementType::TableHead],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::TableHead,tag:"tablehead",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::Part,ElementType::Relation,ElementType::Row],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Target,tag:"target",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::Term,tag:"term",at:Some(AnnotationType::TERM),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Event,ElementType::External,ElementType::Feature,ElementType::Figure,ElementType::ForeignData,ElementType::Gap,ElementType::Hiddenword,ElementType::Linebreak,ElementType::List,ElementType::Metric,ElementType::Paragraph,ElementType::Part,ElementType::PhonContent,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::Table,ElementType::TextContent,ElementType::Utterance,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Text,tag:"text",at:None,printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some("\n\n\n"),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::Division,ElementType::Entry,ElementType::Event,ElementType::Example,ElementType::External,ElementType::Feature,ElementType::Figure,ElementType::ForeignData,ElementType::Gap,ElementType::Hiddenword,ElementType::Linebreak,ElementType::List,ElementType::Metric,ElementType::Note,ElementType::Paragraph,ElementType::Part,ElementType::PhonContent,ElementType::Quote,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::Table,ElementType::TextContent,ElementType::Whitespace,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::TimeFeature,tag:"time",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("time"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::TimeSegment,tag:"timesegment",at:Some(AnnotationType::TIMESEGMENT),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::ActorFeature,ElementType::BegindatetimeFeature,ElementType::Comment,ElementType::Description,ElementType::EnddatetimeFeature,ElementType::Feature,ElementType::ForeignData,ElementType::LinkReference,ElementType::Metric,ElementType::Relation,ElementType::WordReference],acc_groups:&[ElementGroup::Inline]},
    Spec{et:ElementType::TimingLayer,tag:"timing",at:Some(AnnotationType::TIMESEGMENT),printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::ForeignData,ElementType::TimeSegment],acc_groups:&[]},
    Spec{et:ElementType::Utterance,tag:"utt",at:Some(AnnotationType::UTTERANCE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some(" "),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Gap,ElementType::Hiddenword,ElementType::Metric,ElementType::Note,ElementType::Part,ElementType::PhonContent,ElementType::Quote,ElementType::Reference,ElementType::Relation,ElementType::Sentence,ElementType::String,ElementType::TextContent,ElementType::Word],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::ValueFeature,tag:"value",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:Some("value"),space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::Word,tag:"w",at:Some(AnnotationType::TOKEN),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some(" "),wrefable:true,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::Part,ElementType::PhonContent,ElementType::Reference,ElementType::Relation,ElementType::String,ElementType::TextContent],acc_groups:&[ElementGroup::Layer,ElementGroup::Inline]},
    Spec{et:ElementType::Whitespace,tag:"whitespace",at:Some(AnnotationType::WHITESPACE),printable:true,hidden:false,textcontainer:false,phoncontainer:false,delimiter:Some(""),wrefable:false,subset:None,space:true,acc_types:&[ElementType::Alternative,ElementType::AlternativeLayers,ElementType::Comment,ElementType::Correction,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::ForeignData,ElementType::Metric,ElementType::Part,ElementType::Relation],acc_groups:&[ElementGroup::Layer]},
    Spec{et:ElementType::WordReference,tag:"wref",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
    Spec{et:ElementType::LinkReference,tag:"xref",at:None,printable:false,hidden:false,textcontainer:false,phoncontainer:false,delimiter:None,wrefable:false,subset:None,space:false,acc_types:&[ElementType::Comment,ElementType::Description],acc_groups:&[]},
];

pub static GROUPS: &[(ElementGroup, &[ElementType])] = &[
    (ElementGroup::Layer,&[ElementType::ChunkingLayer,ElementType::SpanRelationLayer,ElementType::CoreferenceLayer,ElementType::DependenciesLayer,ElementType::EntitiesLayer,ElementType::MorphologyLayer,ElementType::ObservationLayer,ElementType::PhonologyLayer,ElementType::SemanticRolesLayer,ElementType::SentimentLayer,ElementType::StatementLayer,ElementType::SyntaxLayer,ElementType::TimingLayer,ElementType::ModalitiesLayer]),
    (ElementGroup::Content,&[ElementType::TextContent,ElementType::PhonContent,ElementType::Content]),
    (ElementGroup::CorrectionChild,&[ElementType::Current,ElementType::New,ElementType::Original,ElementType::Suggestion]),
    (ElementGroup::HigherOrder,&[ElementType::Relation,ElementType::Alternative,ElementType::AlternativeLayers,ElementType::SpanRelation,ElementType::Correction,ElementType::Comment,ElementType::Description,ElementType::External,ElementType::Feature,ElementType::Metric,ElementType::String,ElementType::ForeignData,ElementType::Gap]),
    (ElementGroup::Inline,&[ElementType::DomainAnnotation,ElementType::ErrorDetection,ElementType::LangAnnotation,ElementType::LemmaAnnotation,ElementType::PosAnnotation,ElementType::SenseAnnotation,ElementType::SubjectivityAnnotation]),
    (ElementGroup::Span,&[ElementType::Chunk,ElementType::CoreferenceChain,ElementType::Modality,ElementType::Dependency,ElementType::Entity,ElementType::Observation,ElementType::Predicate,ElementType::SemanticRole,ElementType::Sentiment,ElementType::Statement,ElementType::SyntacticUnit,ElementType::TimeSegment]),
    (ElementGroup::SpanRole,&[ElementType::CoreferenceLink,ElementType::DependencyDependent,ElementType::Headspan,ElementType::StatementRelation,ElementType::Source,ElementType::Target,ElementType::Cue,ElementType::Scope]),
    (ElementGroup::Structure,&[ElementType::Caption,ElementType::Cell,ElementType::Definition,ElementType::Division,ElementType::Entry,ElementType::Event,ElementType::Example,ElementType::Figure,ElementType::Head,ElementType::Hiddenword,ElementType::Label,ElementType::Linebreak,ElementType::List,ElementType::ListItem,ElementType::Note,ElementType::Paragraph,ElementType::Part,ElementType::Quote,ElementType::Reference,ElementType::Row,ElementType::Sentence,ElementType::Speech,ElementType::Table,ElementType::TableHead,ElementType::Term,ElementType::Text,ElementType::Utterance,ElementType::Whitespace,ElementType::Word]),
    (ElementGroup::Subtoken,&[ElementType::Morpheme,ElementType::Phoneme]),
    (ElementGroup::TextMarkup,&[ElementType::TextMarkupCorrection,ElementType::TextMarkupError,ElementType::TextMarkupGap,ElementType::TextMarkupString,ElementType::TextMarkupStyle,ElementType::Hyphbreak,ElementType::TextMarkupReference,ElementType::TextMarkupWhitespace,ElementType::TextMarkupHSpace,ElementType::TextMarkupLanguage]),
    (ElementGroup::Feature,&[ElementType::ActorFeature,ElementType::BegindatetimeFeature,ElementType::EnddatetimeFeature,ElementType::FunctionFeature,ElementType::HeadFeature,ElementType::LevelFeature,ElementType::ModalityFeature,ElementType::PolarityFeature,ElementType::StrengthFeature,ElementType::StyleFeature,ElementType::SynsetFeature,ElementType::TimeFeature,ElementType::ValueFeature,ElementType::FontFeature,ElementType::SizeFeature]),
];

pub static ATYPES: &[(AnnotationType, &str)] = &[
    (AnnotationType::TEXT,"t"),
    (AnnotationType::TOKEN,"w"),
    (AnnotationType::DIVISION,"div"),
    (AnnotationType::PARAGRAPH,"p"),
    (AnnotationType::HEAD,"head"),
    (AnnotationType::LIST,"list"),
    (AnnotationType::FIGURE,"figure"),
    (AnnotationType::WHITESPACE,"whitespace"),
    (AnnotationType::LINEBREAK,"br"),
    (AnnotationType::SENTENCE,"s"),
    (AnnotationType::POS,"pos"),
    (AnnotationType::LEMMA,"lemma"),
    (AnnotationType::DOMAIN,"domain"),
    (AnnotationType::SENSE,"sense"),
    (AnnotationType::SYNTAX,"su"),
    (AnnotationType::CHUNKING,"chunk"),
    (AnnotationType::ENTITY,"entity"),
    (AnnotationType::CORRECTION,"correction"),
    (AnnotationType::ERRORDETECTION,"errordetection"),
    (AnnotationType::PHON,"ph"),
    (AnnotationType::SUBJECTIVITY,"subjectivity"),
    (AnnotationType::MORPHOLOGICAL,"morpheme"),
    (AnnotationType::EVENT,"event"),
    (AnnotationType::DEPENDENCY,"dependency"),
    (AnnotationType::TIMESEGMENT,"timesegment"),
    (AnnotationType::GAP,"gap"),
    (AnnotationType::QUOTE,"quote"),
    (AnnotationType::NOTE,"note"),
    (AnnotationType::REFERENCE,"ref"),
    (AnnotationType::RELATION,"relation"),
    (AnnotationType::SPANRELATION,"spanrelation"),
    (AnnotationType::COREFERENCE,"coreferencechain"),
    (AnnotationType::SEMROLE,"semrole"),
    (AnnotationType::METRIC,"metric"),
    (AnnotationType::LANG,"lang"),
    (AnnotationType::STRING,"str"),
    (AnnotationType::TABLE,"table"),
    (AnnotationType::STYLE,"t-style"),
    (AnnotationType::PART,"part"),
    (AnnotationType::UTTERANCE,"utt"),
    (AnnotationType::ENTRY,"entry"),
    (AnnotationType::TERM,"term"),
    (AnnotationType::DEFINITION,"def"),
    (AnnotationType::EXAMPLE,"ex"),
    (AnnotationType::PHONOLOGICAL,"phoneme"),
    (AnnotationType::PREDICATE,"predicate"),
    (AnnotationType::OBSERVATION,"observation"),
    (AnnotationType::SENTIMENT,"sentiment"),
    (AnnotationType::STATEMENT,"statement"),
    (AnnotationType::ALTERNATIVE,"alt"),
    (AnnotationType::RAWCONTENT,"content"),
    (AnnotationType::COMMENT,"comment"),
    (AnnotationType::DESCRIPTION,"desc"),
    (AnnotationType::HYPHENATION,"t-hbr"),
    (AnnotationType::HIDDENTOKEN,"hiddenw"),
    (AnnotationType::MODALITY,"modality"),
    (AnnotationType::EXTERNAL,"external"),
    (AnnotationType::HSPACE,"t-hspace"),
];

pub fn layertype(at: AnnotationType) -> Option<ElementType> {
    match at {
        AnnotationType::CHUNKING => Some(ElementType::ChunkingLayer),
        AnnotationType::COREFERENCE => Some(ElementType::CoreferenceLayer),
        AnnotationType::DEPENDENCY => Some(ElementType::DependenciesLayer),
        AnnotationType::ENTITY => Some(ElementType::EntitiesLayer),
        AnnotationType::MODALITY => Some(ElementType::ModalitiesLayer),
        AnnotationType::MORPHOLOGICAL => Some(ElementType::MorphologyLayer),
        AnnotationType::OBSERVATION => Some(ElementType::ObservationLayer),
        AnnotationType::PHONOLOGICAL => Some(ElementType::PhonologyLayer),
        AnnotationType::SEMROLE => Some(ElementType::SemanticRolesLayer),
        AnnotationType::SENTIMENT => Some(ElementType::SentimentLayer),
        AnnotationType::SPANRELATION => Some(ElementType::SpanRelationLayer),
        AnnotationType::STATEMENT => Some(ElementType::StatementLayer),
        AnnotationType::SYNTAX => Some(ElementType::SyntaxLayer),
        AnnotationType::TIMESEGMENT => Some(ElementType::TimingLayer),
        AnnotationType::PREDICATE => Some(ElementType::SemanticRolesLayer),
        _ => None
    }
}


pub fn spec(et: ElementType) -> &'static Spec {
    //ElementType is a fieldless enum with repr(u8)
    static INDEX: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    let index = INDEX.get_or_init(|| {
        let mut v = vec![usize::MAX; 256];
        for (i,s) in SPEC.iter().enumerate() { v[s.et as u8 as usize] = i; }
        v
    });
    &SPEC[index[et as u8 as usize]]
}
pub fn tag(et: ElementType) -> &'static str { spec(et).tag }
pub fn by_tag(tag: &str) -> Option<&'static Spec> { SPEC.iter().find(|s| s.tag == tag) }
pub fn at_name(at: AnnotationType) -> &'static str { ATYPES.iter().find(|x| x.0 == at).unwrap().1 }
pub fn in_group(g: ElementGroup, et: ElementType) -> bool { GROUPS.iter().find(|x| x.0 == g).unwrap().1.contains(&et) }
pub fn accepts(parent: ElementType, child: ElementType) -> bool {
    let s = spec(parent);
    s.acc_types.contains(&child) || s.acc_groups.iter().any(|g| in_group(*g, child))
}
