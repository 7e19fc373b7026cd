package verif;
import java.util.*;
public class Map1 { public static Map<String, List<Object>> create() { return new TreeMap<>(String.CASE_INSENSITIVE_ORDER); } }
