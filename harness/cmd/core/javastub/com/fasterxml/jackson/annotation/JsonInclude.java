package com.fasterxml.jackson.annotation;
import java.lang.annotation.*;
@Retention(RetentionPolicy.RUNTIME)
@Target({ElementType.ANNOTATION_TYPE, ElementType.METHOD, ElementType.FIELD, ElementType.TYPE, ElementType.PARAMETER})
public @interface JsonInclude {
    Include value() default Include.ALWAYS;
    Include content() default Include.ALWAYS;
    enum Include { ALWAYS, NON_NULL, NON_ABSENT, NON_EMPTY, NON_DEFAULT, USE_DEFAULTS }
    class Value {
        public final Include value, content;
        Value(Include v, Include c) { value = v; content = c; }
        public static Value construct(Include v, Include c) { return new Value(v, c); }
    }
}
