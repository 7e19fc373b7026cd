package com.fasterxml.jackson.annotation;
import java.lang.annotation.*;
@Retention(RetentionPolicy.RUNTIME)
@Target({ElementType.ANNOTATION_TYPE, ElementType.METHOD, ElementType.CONSTRUCTOR})
public @interface JsonCreator {
    Mode mode() default Mode.DEFAULT; enum Mode { DEFAULT, DELEGATING, PROPERTIES, DISABLED }
}
