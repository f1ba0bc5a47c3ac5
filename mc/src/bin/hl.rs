//! The command line tool itself, built from the library view of the sources.
fn main() {
    hibou::ui::hibou_cli::hibou_cli();
}
