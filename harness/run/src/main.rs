fn main() {
    pcr_core::main(pcr_core::types::Subject {
        lex: pcr_subject::verif_adapter::lex,
        parse: pcr_subject::verif_adapter::parse,
        buffer: pcr_subject::verif_adapter::buffer,
        rules: pcr_subject::verif_adapter::rules,
    })
}
