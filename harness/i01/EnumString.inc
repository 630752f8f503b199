BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Metal, (Iron)(Gold)(Tin))
static void use(std::ostream& o)
{
  Metal m = Iron;
  FromString(m, "Tin");
  o << ToString(m) << ToString(Gold) << static_cast<int>(m);
  try {
    FromString(m, "Wood");
  } catch (EnumStringConversionFailed_Metal const& e) {
    o << e.what();
  }
}
