----------------------------- MODULE AdfSchema -----------------------------
(* The catalogue of supported ADF elements: for each type the public class,  *)
(* the fields it has, and which of them are required.                        *)
(*                                                                           *)
(* The catalogue is the single source of truth of the framework: the trace   *)
(* specification judges the code with it, and the document generator of the  *)
(* harness reads it through ExportSchema.tla.                                *)
EXTENDS Naturals, Sequences

(* cls    public class                                                       *)
(* xreq   required fields other than type, attrs, content, marks             *)
(* attrs, content, marks   "REQ" | "OPT" | "NONE" (the class has no such     *)
(*        field, so it is unknown there)                                     *)
(* acls   public class of the attrs object, areq / aopt its fields           *)
K(cls, xreq, attrs, acls, areq, aopt, content, marks) ==
    [cls |-> cls, xreq |-> xreq, attrs |-> attrs, acls |-> acls, areq |-> areq,
     aopt |-> aopt, content |-> content, marks |-> marks]

NodeK == [
    doc |-> K("NodeDoc", {}, "NONE", "-", {},
        {}, "REQ", "NONE"),
    text |-> K("NodeText", {"text"}, "NONE", "-", {},
        {}, "NONE", "OPT"),
    rule |-> K("NodeRule", {}, "OPT", "NodeRuleAttrs", {},
        {"localId"}, "NONE", "NONE"),
    listItem |-> K("NodeListItem", {}, "OPT", "NodeListItemAttrs", {},
        {"localId"}, "REQ", "NONE"),
    bulletList |-> K("NodeBulletList", {}, "NONE", "-", {},
        {}, "REQ", "NONE"),
    orderedList |-> K("NodeOrderedList", {}, "OPT", "NodeOrderedListAttrs", {},
        {"order", "localId"}, "REQ", "NONE"),
    paragraph |-> K("NodeParagraph", {}, "OPT", "NodeParagraphAttrs", {},
        {"localId"}, "OPT", "OPT"),
    taskItem |-> K("NodeTaskItem", {}, "REQ", "NodeTaskItemAttrs", {"localId", "state"},
        {}, "OPT", "NONE"),
    taskList |-> K("NodeTaskList", {}, "REQ", "NodeTaskListAttrs", {"localId"},
        {}, "REQ", "NONE"),
    decisionItem |-> K("NodeDecisionItem", {}, "REQ", "NodeDecisionItemAttrs", {"localId", "state"},
        {}, "OPT", "NONE"),
    decisionList |-> K("NodeDecisionList", {}, "REQ", "NodeDecisionListAttrs", {"localId"},
        {}, "REQ", "NONE"),
    emoji |-> K("NodeEmoji", {}, "REQ", "NodeEmojiAttrs", {"shortName"},
        {"id", "text", "localId"}, "NONE", "NONE"),
    hardBreak |-> K("NodeHardBreak", {}, "OPT", "NodeHardBreakAttrs", {},
        {"text", "localId"}, "NONE", "NONE"),
    date |-> K("NodeDate", {}, "REQ", "NodeDateAttrs", {"timestamp"},
        {"localId"}, "NONE", "NONE"),
    mention |-> K("NodeMention", {}, "REQ", "NodeMentionAttrs", {"id"},
        {"localId", "text", "accessLevel", "userType"}, "NONE", "NONE"),
    status |-> K("NodeStatus", {}, "REQ", "NodeStatusAttrs", {"text", "color"},
        {"localId", "style"}, "NONE", "NONE"),
    heading |-> K("NodeHeading", {}, "REQ", "NodeHeadingAttrs", {"level"},
        {"localId"}, "OPT", "OPT"),
    codeBlock |-> K("NodeCodeBlock", {}, "OPT", "NodeCodeBlockAttrs", {},
        {"language", "uniqueId", "localId"}, "OPT", "NONE"),
    inlineCard |-> K("NodeInlineCard", {}, "REQ", "NodeInlineCardAttrs", {},
        {"url", "data", "localId"}, "NONE", "NONE"),
    blockCard |-> K("NodeBlockCard", {}, "REQ", "NodeBlockCardAttrs", {},
        {"url", "localId", "datasource", "width", "layout", "data"}, "NONE", "NONE"),
    media |-> K("NodeMedia", {}, "REQ", "NodeMediaAttrs", {"type"},
        {"id", "collection", "url", "localId", "alt", "width", "height", "occurrenceKey"}, "NONE", "OPT"),
    mediaGroup |-> K("NodeMediaGroup", {}, "NONE", "-", {},
        {}, "REQ", "NONE"),
    mediaSingle |-> K("NodeMediaSingle", {}, "OPT", "NodeMediaSingleAttrs", {},
        {"layout", "width", "widthType", "localId"}, "OPT", "OPT"),
    embedCard |-> K("NodeEmbedCard", {}, "REQ", "NodeEmbedCardAttrs", {"url", "layout"},
        {"width", "originalHeight", "originalWidth", "localId"}, "NONE", "NONE"),
    extension |-> K("NodeExtension", {}, "REQ", "NodeExtensionAttrs", {"extensionKey", "extensionType"},
        {"parameters", "text", "layout", "localId"}, "NONE", "OPT"),
    caption |-> K("NodeCaption", {}, "OPT", "NodeCaptionAttrs", {},
        {"localId"}, "OPT", "NONE"),
    mediaInline |-> K("NodeMediaInline", {}, "REQ", "NodeMediaInlineAttrs", {"id", "collection"},
        {"type", "localId", "alt", "occurrenceKey", "width", "height", "data"}, "NONE", "OPT"),
    panel |-> K("NodePanel", {}, "REQ", "NodePanelAttrs", {"panelType"},
        {"panelIcon", "panelIconId", "panelIconText", "panelColor", "localId"}, "REQ", "NONE"),
    blockquote |-> K("NodeBlockquote", {}, "OPT", "NodeBlockquoteAttrs", {},
        {"localId"}, "REQ", "NONE"),
    expand |-> K("NodeExpand", {}, "OPT", "NodeExpandAttrs", {},
        {"title", "localId"}, "REQ", "NONE"),
    nestedExpand |-> K("NodeNestedExpand", {}, "REQ", "NodeNestedExpandAttrs", {},
        {"title", "localId"}, "REQ", "NONE"),
    tableCell |-> K("NodeTableCell", {}, "OPT", "NodeTableCellAttrs", {},
        {"colspan", "rowspan", "colwidth", "background", "localId"}, "REQ", "NONE"),
    tableHeader |-> K("NodeTableHeader", {}, "OPT", "NodeTableHeaderAttrs", {},
        {"colspan", "rowspan", "colwidth", "background", "localId"}, "REQ", "NONE"),
    tableRow |-> K("NodeTableRow", {}, "OPT", "NodeTableRowAttrs", {},
        {"localId"}, "REQ", "NONE"),
    table |-> K("NodeTable", {}, "OPT", "NodeTableAttrs", {},
        {"displayMode", "isNumberColumnEnabled", "layout", "localId", "width"}, "REQ", "OPT")
    ]

MarkK == [
    backgroundColor |-> K("MarkBackgroundColor", {}, "REQ", "MarkBackgroundColorAttrs", {"color"},
        {}, "NONE", "NONE"),
    code |-> K("MarkCode", {}, "NONE", "-", {},
        {}, "NONE", "NONE"),
    em |-> K("MarkEm", {}, "NONE", "-", {},
        {}, "NONE", "NONE"),
    link |-> K("MarkLink", {}, "REQ", "MarkLinkAttrs", {"href"},
        {"title", "id", "collection", "occurrenceKey"}, "NONE", "NONE"),
    strike |-> K("MarkStrike", {}, "NONE", "-", {},
        {}, "NONE", "NONE"),
    strong |-> K("MarkStrong", {}, "NONE", "-", {},
        {}, "NONE", "NONE"),
    subsup |-> K("MarkSubsup", {}, "REQ", "MarkSubsupAttrs", {"type"},
        {}, "NONE", "NONE"),
    textColor |-> K("MarkTextColor", {}, "REQ", "MarkTextColorAttrs", {"color"},
        {}, "NONE", "NONE"),
    underline |-> K("MarkUnderline", {}, "NONE", "-", {},
        {}, "NONE", "NONE"),
    annotation |-> K("MarkAnnotation", {}, "REQ", "MarkAnnotationAttrs", {"id", "annotationType"},
        {}, "NONE", "NONE"),
    indentation |-> K("MarkIndentation", {}, "REQ", "MarkIndentationAttrs", {"level"},
        {}, "NONE", "NONE"),
    border |-> K("MarkBorder", {}, "REQ", "MarkBorderAttrs", {"size", "color"},
        {}, "NONE", "NONE"),
    alignment |-> K("MarkAlignment", {}, "REQ", "MarkAlignmentAttrs", {"align"},
        {}, "NONE", "NONE"),
    breakout |-> K("MarkBreakout", {}, "REQ", "MarkBreakoutAttrs", {"mode"},
        {"width"}, "NONE", "NONE"),
    dataConsumer |-> K("MarkDataConsumer", {}, "REQ", "MarkDataConsumerAttrs", {"sources"},
        {}, "NONE", "NONE"),
    fragment |-> K("MarkFragment", {}, "REQ", "MarkFragmentAttrs", {"localId"},
        {"name"}, "NONE", "NONE")
    ]

NodeTypes == DOMAIN NodeK
MarkTypes == DOMAIN MarkK
Cat(cat) == IF cat = "node" THEN NodeK ELSE MarkK

(* Types that ADF defines and the library names but does not parse. *)
KnownUnsupported == {"blockTaskItem", "bodiedExtension", "bodiedSyncBlock",
    "inlineExtension", "layoutColumn", "layoutSection", "placeholder", "syncBlock",
    "external", "file", "image", "sub", "sup"}
AllNamedTypes == NodeTypes \cup MarkTypes \cup KnownUnsupported

(* The doc version is the one field with a default value. *)
DefaultVersion == <<"version", "n:1">>

(* Nesting: what may stand inside what (used to generate documents and to    *)
(* delimit "well-formed").                                                   *)
InlineT == {"text", "hardBreak", "emoji", "date", "mention", "status", "inlineCard",
            "mediaInline"}
BlockT  == {"paragraph", "heading", "rule", "bulletList", "orderedList", "taskList",
            "decisionList", "codeBlock", "blockCard", "embedCard", "extension",
            "mediaSingle", "mediaGroup", "panel", "blockquote", "table"}
ChildT == [
    doc |-> BlockT \cup {"expand"},
    expand |-> BlockT \cup {"nestedExpand"},
    nestedExpand |-> BlockT \ {"table"},
    panel |-> BlockT \ {"table"},
    blockquote |-> {"paragraph", "bulletList", "orderedList", "codeBlock", "mediaSingle",
                    "mediaGroup", "extension", "blockquote", "panel"},
    listItem |-> {"paragraph", "bulletList", "orderedList", "taskList", "codeBlock",
                  "mediaSingle", "extension"},
    bulletList |-> {"listItem"}, orderedList |-> {"listItem"},
    taskList |-> {"taskItem", "taskList"}, taskItem |-> InlineT,
    decisionList |-> {"decisionItem"}, decisionItem |-> InlineT,
    paragraph |-> InlineT, heading |-> InlineT, caption |-> InlineT \ {"mediaInline"},
    codeBlock |-> {"text"},
    mediaSingle |-> {"media", "caption"}, mediaGroup |-> {"media"},
    table |-> {"tableRow"}, tableRow |-> {"tableCell", "tableHeader"},
    tableCell |-> (BlockT \ {"table"}) \cup {"nestedExpand"},
    tableHeader |-> (BlockT \ {"table"}) \cup {"nestedExpand"}
    ]
MarkOf == [
    text |-> MarkTypes \ {"alignment", "breakout", "dataConsumer", "fragment", "border",
                          "indentation"},
    paragraph |-> {"alignment", "indentation"}, heading |-> {"alignment", "indentation"},
    media |-> {"link", "annotation", "border"}, mediaInline |-> {"link", "annotation", "border"},
    mediaSingle |-> {"link"}, table |-> {"fragment"},
    extension |-> {"dataConsumer", "fragment"}
    ]
=============================================================================
